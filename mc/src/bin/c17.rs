use mc::alloc::{host, lib};
use mc::driver::*;
use mc::explore::*;
use mc::sim::*;
use mc::subj::*;
use mc::zoo::*;
use mc::{gcheck, gcheck_eq};
use std::collections::VecDeque;
use std::pin::Pin;
use varlen::seq::{Iter, IterMut, OwnedElems};
use varlen::{Owned, VClone};

/// A view of an item: check it against element `i` of the model and keep it if asked to.
trait It<'a, T: Subj>: ExactSizeIterator + Sized {
    const NAME: &'static str;
    const OWNING: bool;
    /// limited to n; the original if it goes on existing
    fn limit(self, n: usize) -> Result<(Self, Option<Self>), Self>;
    fn val(i: &Self::Item) -> Val;
    fn addr(i: &Self::Item) -> usize;
}
impl<'a, T: Subj> It<'a, T> for Iter<'a, T> {
    const NAME: &'static str = "iter";
    const OWNING: bool = false;
    fn limit(self, n: usize) -> Result<(Self, Option<Self>), Self> {
        Ok((lib(|| self.limited_to(n)), Some(self)))
    }
    fn val(i: &&'a T) -> Val {
        read::<T>(i)
    }
    fn addr(i: &&'a T) -> usize {
        *i as *const T as usize
    }
}
impl<'a, T: Subj> It<'a, T> for IterMut<'a, T> {
    const NAME: &'static str = "iter_mut";
    const OWNING: bool = false;
    fn limit(self, n: usize) -> Result<(Self, Option<Self>), Self> {
        Ok((lib(|| self.limited_to(n)), None))
    }
    fn val(i: &Pin<&'a mut T>) -> Val {
        read::<T>(i)
    }
    fn addr(i: &Pin<&'a mut T>) -> usize {
        &**i as *const T as usize
    }
}
impl<'a, T: Subj> It<'a, T> for OwnedElems<'a, T> {
    const NAME: &'static str = "take_elems";
    const OWNING: bool = true;
    fn limit(self, _: usize) -> Result<(Self, Option<Self>), Self> {
        Err(self)
    }
    fn val(i: &Owned<'a, T>) -> Val {
        read::<T>(i)
    }
    fn addr(i: &Owned<'a, T>) -> usize {
        &**i as *const T as usize
    }
}

struct Cx<'m> {
    model: &'m [Val],
    env: &'m Env,
    addrs: &'m [usize],
    /// values with destructors in the elements
    toks: &'m [i64],
    /// items that went by and were destroyed, or were left behind
    leaked: i64,
    /// for non-owning iterators the sequence holds everything
    total: i64,
    forgets: bool,
    /// arguments of nth and limited_to
    js: &'m [usize],
}
impl<'m> Cx<'m> {
    fn item<'a, T: Subj, I: It<'a, T>>(&self, got: &I::Item, want: Option<usize>, what: &str) {
        match want {
            None => gcheck!(ITER, false, "{} yields an item after the end", what),
            Some(w) => {
                let v = I::val(got);
                gcheck_eq!(ITER, &v, &self.model[w], "item {} yielded by {}", w, what);
                gcheck_eq!(ITER, I::addr(got), self.addrs[w], "address of item {} yielded by {}", w, what);
                host(|| drop(v));
            }
        }
    }
    fn opt<'a, T: Subj, I: It<'a, T>>(&self, got: &Option<I::Item>, want: Option<usize>, what: &str) {
        match (got, want) {
            (None, Some(w)) => gcheck!(ITER, false, "{} ends before item {}", what, w),
            (None, None) => {}
            (Some(g), w) => self.item::<T, I>(g, w, what),
        }
        stop_if_violated();
    }
    fn sizes<'a, T: Subj, I: It<'a, T>>(&self, it: &I, left: &VecDeque<usize>, what: &str) {
        gcheck_eq!(ITER, lib(|| it.size_hint()), (left.len(), Some(left.len())), "size_hint {}", what);
        gcheck_eq!(ITER, lib(|| it.len()), left.len(), "len {}", what);
    }
    fn ledger(&self, owning: bool, left: &VecDeque<usize>, kept: &[usize], what: &str) {
        let held = if owning { left.iter().chain(kept).map(|&i| self.toks[i]).sum::<i64>() + self.leaked } else { self.total };
        expect_live(self.env, held, what);
    }
    fn rest<'a, T: Subj, I: It<'a, T>>(&self, it: &mut I, left: &mut VecDeque<usize>, what: &str) {
        for k in 0.. {
            let w = left.pop_front();
            let g = lib(|| it.next());
            self.opt::<T, I>(&g, w, what);
            self.sizes::<T, I>(it, left, what);
            lib(|| drop(g));
            if w.is_none() && k > 0 {
                break;
            }
            if w.is_none() {
                // ends and stays ended
                let g = lib(|| it.next());
                self.opt::<T, I>(&g, None, what);
                self.sizes::<T, I>(it, left, what);
                break;
            }
        }
    }
    /// Steps, then one way of finishing. Items asked to be kept are handed back.
    fn drive<'a, T: Subj + 'a, I: It<'a, T>>(&mut self, it: I, depth: usize, keep: &mut Vec<(I::Item, usize)>) {
        let n = self.model.len();
        let mut it = it;
        let mut left: VecDeque<usize> = host(|| (0..n).collect());
        let mut others: Vec<(I, VecDeque<usize>)> = host(|| Vec::with_capacity(depth));
        let hold = choose(2) == 1;
        log(|| format!("{} over {} elements{}", I::NAME, n, if hold { ", items kept" } else { "" }));
        let mut kept: Vec<usize> = host(|| Vec::with_capacity(n));
        macro_rules! got {
            ($g:expr, $w:expr, $what:expr) => {{
                let (g, w) = ($g, $w);
                self.opt::<T, I>(&g, w, $what);
                match (g, w) {
                    (Some(g), Some(w)) if hold => host(|| {
                        keep.push((g, w));
                        kept.push(w);
                    }),
                    (g, _) => lib(|| drop(g)),
                }
            }};
        }
        self.sizes::<T, I>(&it, &left, "at the start");
        for _ in 0..depth {
            op();
            let nj = self.js.len();
            let k = choose(if I::OWNING { nj + 3 } else { 2 * nj + 3 });
            match k {
                0 => {
                    log(|| "next".into());
                    got!(lib(|| it.next()), left.pop_front(), "next");
                }
                _ if k <= nj => {
                    let j = self.js[k - 1];
                    log(|| format!("nth({})", j));
                    let w = {
                        for _ in 0..j.min(n + 1) {
                            left.pop_front();
                        }
                        left.pop_front()
                    };
                    got!(lib(|| it.nth(j)), w, "nth");
                }
                _ if k == nj + 1 => {
                    log(|| "by_ref().take(2)".into());
                    let mut t = it.by_ref().take(2);
                    for _ in 0..2 {
                        let w = left.pop_front();
                        got!(lib(|| t.next()), w, "by_ref().take(2)");
                    }
                    gcheck!(ITER, t.next().is_none(), "by_ref().take(2) yields a third item");
                }
                _ if k == nj + 2 => {
                    log(|| "by_ref().find(the second one from here)".into());
                    let mut c = 0;
                    let g = lib(|| {
                        it.by_ref().find(|_| {
                            c += 1;
                            c == 2
                        })
                    });
                    left.pop_front();
                    got!(g, left.pop_front(), "find");
                }
                _ => {
                    let j = self.js[k - nj - 3];
                    log(|| format!("limited_to({})", j));
                    match it.limit(j) {
                        Ok((l, o)) => {
                            it = l;
                            if let Some(o) = o {
                                host(|| others.push((o, left.clone())));
                            }
                            left.truncate(j);
                        }
                        Err(i) => it = i,
                    }
                }
            }
            self.sizes::<T, I>(&it, &left, "after a step");
            self.ledger(I::OWNING, &left, &kept, "a step");
            let mut h = H::new(n as u64);
            h.u(left.len() as u64);
            h.u(kept.len() as u64);
            h.u(I::OWNING as u64);
            state(h.get(), 0);
            stop_if_violated();
        }
        op();
        let none = VecDeque::new();
        let end = choose(15);
        log(|| ["next to the end", "drop", "forget", "count", "last", "collect", "fold", "for_each", "step_by(2)", "skip(1)", "map+len", "take_while", "fold that panics", "for_each that panics", "position, then to the end"][end].into());
        match end {
            0 => {
                loop {
                    let w = left.pop_front();
                    let g = lib(|| it.next());
                    let stop = w.is_none();
                    got!(g, w, "next");
                    self.sizes::<T, I>(&it, &left, "near the end");
                    self.ledger(I::OWNING, &left, &kept, "next");
                    if stop {
                        break;
                    }
                }
                self.rest::<T, I>(&mut it, &mut left, "next at the end");
                lib(|| drop(it));
            }
            1 => lib(|| drop(it)),
            2 => {
                if I::OWNING {
                    let l: i64 = left.iter().map(|&i| self.toks[i]).sum();
                    self.leaked += l;
                    if l > 0 {
                        self.forgets = true;
                    }
                }
                std::mem::forget(it);
            }
            3 => gcheck_eq!(ITER, lib(|| it.count()), left.len(), "count()"),
            4 => {
                let g = lib(|| it.last());
                got!(g, left.back().copied(), "last");
            }
            5 => {
                let v: Vec<I::Item> = host(|| Vec::with_capacity(n));
                let v = lib(|| it.fold(v, |mut v, x| {
                    host(|| v.push(x));
                    v
                }));
                gcheck_eq!(ITER, v.len(), left.len(), "number of items collected");
                for (g, w) in v.into_iter().zip(left.iter()) {
                    got!(Some(g), Some(*w), "collect");
                }
            }
            6 | 12 => {
                let at = if end == 12 { left.len() / 2 } else { usize::MAX };
                let mut c = 0;
                let me = &*self;
                let q = &left;
                let r = catch(|| {
                    lib(|| {
                        it.fold(0usize, |acc, g| {
                            me.opt::<T, I>(&Some(g), q.get(c).copied(), "fold");
                            gcheck_eq!(ITER, acc, c, "accumulator of fold");
                            if c == at {
                                host(|| std::panic::panic_any(mc::tok::Injected));
                            }
                            c += 1;
                            acc + 1
                        })
                    })
                });
                if end == 6 {
                    gcheck_eq!(ITER, r, Some(left.len()), "result of fold");
                } else {
                    gcheck_eq!(ITER, r, if left.is_empty() { Some(0) } else { None }, "result of a fold that panics");
                }
            }
            7 | 13 => {
                let at = if end == 13 { left.len() / 2 } else { usize::MAX };
                let mut c = 0;
                let me = &*self;
                let q = &left;
                let r = catch(|| {
                    lib(|| {
                        it.for_each(|g| {
                            me.opt::<T, I>(&Some(g), q.get(c).copied(), "for_each");
                            if c == at {
                                host(|| std::panic::panic_any(mc::tok::Injected));
                            }
                            c += 1;
                        })
                    })
                });
                gcheck_eq!(ITER, r.is_some(), end == 7 || left.is_empty(), "for_each finished");
                if end == 7 {
                    gcheck_eq!(ITER, c, left.len(), "calls made by for_each");
                }
            }
            8 => {
                let mut s = lib(|| it.step_by(2));
                gcheck_eq!(ITER, s.len(), (left.len() + 1) / 2, "len of step_by(2)");
                for k in (0..left.len()).step_by(2) {
                    let g = lib(|| s.next());
                    got!(g, Some(left[k]), "step_by(2)");
                }
                let g = lib(|| s.next());
                got!(g, None, "step_by(2)");
                lib(|| drop(s));
            }
            9 => {
                let mut s = lib(|| it.skip(1));
                gcheck_eq!(ITER, s.len(), left.len().saturating_sub(1), "len of skip(1)");
                for k in 1..left.len() {
                    let g = lib(|| s.next());
                    got!(g, Some(left[k]), "skip(1)");
                }
                let g = lib(|| s.next());
                got!(g, None, "skip(1)");
                lib(|| drop(s));
            }
            10 => {
                let s = lib(|| it.map(|x| x));
                gcheck_eq!(ITER, s.len(), left.len(), "len of map");
                let mut c = 0;
                for g in s {
                    let w = left.get(c).copied();
                    c += 1;
                    got!(Some(g), w, "map");
                }
                gcheck_eq!(ITER, c, left.len(), "items yielded by map");
            }
            11 => {
                let mut c = 0;
                let mut seen = 0;
                for g in lib(|| it.take_while(|_| {
                    c += 1;
                    c <= 1
                })) {
                    seen += 1;
                    got!(Some(g), left.front().copied(), "take_while");
                }
                gcheck_eq!(ITER, seen, left.len().min(1), "items yielded by take_while");
            }
            _ => {
                let mut c = 0;
                let me = &*self;
                let q = &left;
                let p = lib(|| {
                    it.position(|g| {
                        me.opt::<T, I>(&Some(g), q.get(c).copied(), "position");
                        c += 1;
                        c == 2
                    })
                });
                gcheck_eq!(ITER, p, if left.len() >= 2 { Some(1) } else { None }, "position of the second item");
                gcheck_eq!(ITER, c, left.len().min(2), "items looked at by position");
                left.drain(..c.min(left.len()));
                self.rest::<T, I>(&mut it, &mut left, "next after position");
                lib(|| drop(it));
            }
        }
        self.ledger(I::OWNING, &none, &kept, "the iterator is gone");
        stop_if_violated();
        // iterators this one was derived from go on unaffected
        while let Some((mut o, mut l)) = others.pop() {
            self.sizes::<T, I>(&o, &l, "original of a limited iterator");
            self.rest::<T, I>(&mut o, &mut l, "original of a limited iterator");
            lib(|| drop(o));
            host(|| drop(l));
        }
        host(|| drop((others, left, kept)));
    }
}

fn body<T: Subj + for<'a> VClone<'a>, X: Ix>(ns: &[usize], depth: usize, shapes: &[Vec<usize>], js: &[usize]) {
    let env = Env::new();
    {
        let n = ns[choose(ns.len())];
        let (x, y) = (choose(shapes.len()), choose(shapes.len()));
        let mut s: Sim<T, X> = Sim::new();
        for i in 0..n {
            let v = s.val(&shapes[if i % 2 == 0 { x } else { y }]);
            let init = host(|| T::direct(&v, &mut |_| 0, &env));
            s.push(v, init);
        }
        let model = host(|| s.model.clone());
        let toks: Vec<i64> = host(|| model.iter().map(tokens::<T>).collect());
        let addrs: Vec<usize> = host(|| s.s().iter().map(|e| e as *const T as usize).collect());
        gcheck_eq!(ITER, addrs.len(), n, "elements yielded");
        stop_if_violated();
        let total = toks.iter().sum();
        let mut cx = Cx { model: &model, env: &env, addrs: &addrs, toks: &toks, leaked: 0, total, forgets: false, js };
        match choose(3) {
            0 => {
                let mut keep = host(|| Vec::with_capacity(n));
                cx.drive::<T, _>(s.s().iter(), depth, &mut keep);
                for (e, i) in &keep {
                    cx.item::<T, Iter<T>>(e, Some(*i), "item kept");
                }
                host(|| drop(keep));
            }
            1 => {
                let mut keep = host(|| Vec::with_capacity(n));
                cx.drive::<T, _>(lib(|| s.seq.as_mut().unwrap().iter_mut()), depth, &mut keep);
                // all mutable at once, written last to first
                for (e, i) in keep.iter_mut().rev() {
                    cx.item::<T, IterMut<T>>(e, Some(*i), "item kept");
                    let mut f = |l: usize, j: usize, x: u64| x.rotate_left(5) ^ (*i as u64 * 7 + l as u64 + j as u64);
                    host(|| model_set_all::<T>(&mut s.model[*i], &mut f));
                    e.as_mut().set_all(0, &mut f);
                }
                host(|| drop(keep));
            }
            _ => {
                let mut keep = host(|| Vec::with_capacity(n));
                cx.drive::<T, _>(lib(|| s.seq.as_mut().unwrap().take_elems()), depth, &mut keep);
                for (e, i) in keep.iter() {
                    cx.item::<T, OwnedElems<T>>(e, Some(*i), "element kept after the iterator is gone");
                }
                while let Some(e) = host(|| keep.pop()) {
                    lib(|| drop(e));
                }
                host(|| drop(keep));
                s.leaked += cx.leaked;
                if cx.forgets {
                    allow_live_tokens();
                }
                s.clear_model();
            }
        }
        stop_if_violated();
        let held = s.tokens();
        expect_live(&env, held, "iterating");
        // the sequence is what it was (or empty), and usable
        let check = |s: &mut Sim<T, X>, what: &str| {
            gcheck_eq!(ITER, s.s().len(), s.model.len(), "length of the sequence {}", what);
            let mut c = 0;
            for e in s.seq.as_ref().unwrap().iter() {
                let v = read::<T>(e);
                gcheck_eq!(ITER, Some(&v), s.model.get(c), "element {} of the sequence {}", c, what);
                host(|| drop(v));
                c += 1;
            }
            gcheck_eq!(ITER, c, s.model.len(), "elements of the sequence {}", what);
            stop_if_violated();
        };
        check(&mut s, "after iterating");
        let v = s.val(&shapes[0]);
        let init = host(|| T::direct(&v, &mut |_| 0, &env));
        s.push(v, init);
        check(&mut s, "after iterating and pushing");
        s.drop_seq();
        let held = s.leaked;
        expect_live(&env, held, "destroying the sequence");
        host(|| drop((model, toks, addrs)));
    }
    drop(env);
}
const FEW: [usize; 4] = [0, 1, 2, usize::MAX];
/// counts that a narrower or signed integer would take for something else
const WIDE: [usize; 24] = [
    0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x102, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x1_0002, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001,
    1 << 63, usize::MAX,
];
/// sequences whose number of elements does not fit a narrower integer
fn long<T: Subj + for<'a> VClone<'a>>(v: &mut Vec<Section>, ns: &'static [usize], depth: usize, js: &'static [usize]) {
    let shapes = pick_shapes::<T>(2);
    v.push(Section { name: format!("{} of {:?} elements, {} steps", seq_name::<T, U>(), ns, depth), dev: 0, body: Box::new(move || body::<T, U>(ns, depth, &shapes[shapes.len() - 1..], js)) });
}
fn upto(max: usize) -> Vec<usize> {
    (0..=max).collect()
}
fn wide<T: Subj + for<'a> VClone<'a>>(v: &mut Vec<Section>, max: usize, depth: usize) {
    let shapes = pick_shapes::<T>(2);
    let ns = upto(max);
    v.push(Section { name: format!("{} up to {} elements, {} steps, counts around every power of two", seq_name::<T, U>(), max, depth), dev: 0, body: Box::new(move || body::<T, U>(&ns, depth, &shapes, &WIDE)) });
}
fn sec<T: Subj + for<'a> VClone<'a>>(v: &mut Vec<Section>, max: usize, depth: usize, k: usize) {
    let shapes = pick_shapes::<T>(k);
    let s = shapes.clone();
    let (ns, ms) = (upto(max), upto(max));
    v.push(Section { name: format!("{} up to {} elements, {} steps", seq_name::<T, U>(), max, depth), dev: 0, body: Box::new(move || body::<T, U>(&ns, depth, &s, &FEW)) });
    v.push(Section { name: format!("{} up to {} elements, {} steps", seq_name::<T, C>(), max, depth - 1), dev: 0, body: Box::new(move || body::<T, C>(&ms, depth - 1, &shapes, &FEW)) });
}
fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    let d = t.pick(2, 3);
    mc::zoo_small!(sec, &mut v, t.pick(4, 5), d, 2);
    mc::zoo_rest!(sec, &mut v, t.pick(3, 4), d, 2);
    wide::<FixedLen<u8>>(&mut v, 4, d - 1);
    wide::<FixedLen<TZ>>(&mut v, 4, d - 1);
    wide::<Array<T8, u16>>(&mut v, 4, d - 1);
    wide::<Tup3<FixedLen<u8>, Array<u64, u16>, Str<u8>>>(&mut v, 4, d - 1);
    long::<FixedLen<u8>>(&mut v, &[127, 128, 255, 256, 257], d - 1, &WIDE);
    long::<Array<T8, u16>>(&mut v, &[128, 256, 257], d - 1, &FEW);
    long::<FixedLen<u8>>(&mut v, &[32768, 65536, 65537], d - 2, &FEW);
    long::<FixedLen<T8>>(&mut v, &[65537], t.pick(0, 1), &FEW);
    v
}
fn main() {
    set_mask(ITER | TOK | TOKLEAK);
    mc::driver::main(
        Meta {
            id: "C17",
            level: "model_checking",
            rule: "every sequence of steps {next, nth, take by reference, find, limited_to} on each of the three iterators over every small sequence, then every way of finishing {next to the end and beyond, drop, forget, count, last, collect, fold, for_each, step_by, skip, map, take_while, position, closures that panic}, items kept or not; len and size_hint after every step; items, their addresses, the sequence afterwards and the ledger of values compared with a list iterator",
            bounds: "40 element types, both indexing modes; up to 4 elements (5 thorough) of alternating shapes; 2 steps (3 thorough) with counts 0, 1, 2 and the largest, or 1 step (2 thorough) with 24 counts around every power of two, and a finish".into(),
            assumptions: &[],
        },
        secs,
    );
}
