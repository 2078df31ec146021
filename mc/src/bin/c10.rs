use mc::alloc::{host, lib};
use mc::driver::*;
use mc::explore::*;
use mc::subj::*;
use mc::tok::{births, clones, Pay, *};
use mc::{check, gcheck_eq};
use std::cell::{Cell, RefCell};
use varlen::array::SizedInit;
use varlen::array_init::*;
use varlen::prelude::{tup3, Array, Tup3};
use varlen::{FixedLen, Initializer, Owned, Seq, VBox, VarLen};

trait D: Pay + Default {}
impl<P: Pay + Default> D for P {}

/// What was seen of one use of an array initializer.
struct Seen {
    vals: Option<Vec<u64>>,
}

/// Every cell in turn changed through the mutable view; only it changes.
fn mutate<P: Pay>(len: usize, mut with: impl FnMut(&mut dyn FnMut(&mut [P]))) {
    let step = if len <= 64 { 1 } else { len / 7 };
    let mut i = 0;
    while i < len {
        with(&mut |s: &mut [P]| {
            gcheck_eq!(CONTENT, s.len(), len, "length of the mutable view");
            let mut want: Vec<u64> = host(|| s.iter().map(|p| p.val()).collect());
            let x = (i as u64 * 0x9e37_79b9 + 0x51) & P::MASK;
            s[i] = host(|| P::mk(x));
            want[i] = x;
            let got: Vec<u64> = host(|| s.iter().map(|p| p.val()).collect());
            gcheck_eq!(CONTENT, got, want, "after changing element {}", i);
            host(|| drop((want, got)));
        });
        i += step;
    }
}
fn vals<P: Pay>(s: &[P]) -> Vec<u64> {
    if s.len() > 1 << 25 {
        mc::fail!("array length {} is absurd", s.len());
    }
    host(|| s.iter().map(|p| p.val()).collect())
}
fn check_arr<P: Pay, L: LenN>(a: &Array<P, L>, n: usize) {
    gcheck_eq!(CONTENT, a.len(), n, "length of the array");
    gcheck_eq!(CONTENT, a.len_short().as_usize(), n, "len_short()");
    gcheck_eq!(CONTENT, a.iter().count(), n, "elements by iter()");
}

const PLACES: usize = 5;
/// Lengths of the fixed-size arrays (place 4).
const FIXED: [usize; 9] = [0, 1, 2, 3, 5, 8, 12, 33, 256];
/// Use the initializer; None: it panicked.
fn place<P: D, L: LenN>(k: usize, n: usize, i: impl ArrayInitializer<P>, env: &Env) -> Option<Seen> {
    let len = L::from_usize(n).unwrap();
    match k {
        0 => {
            let mut b = catch(|| lib(|| VBox::<Array<P, L>>::new(SizedInit(len, i))))?;
            check_arr(&b, n);
            let v = vals(&b[..]);
            mutate::<P>(n, |f| f(b.as_mut().mut_slice()));
            lib(|| drop(b));
            Some(Seen { vals: Some(v) })
        }
        1 => {
            let mut s: Seq<Array<P, L>> = lib(|| Seq::new());
            let one = L::from_usize(1).unwrap();
            let nb = 0x5a & P::MASK;
            lib(|| s.push(SizedInit(one, FillSequentially(|_| host(|| P::mk(nb))))));
            let r = catch(|| lib(|| s.push(SizedInit(len, i))));
            lib(|| s.push(SizedInit(one, FillSequentially(|_| host(|| P::mk(nb))))));
            let mut v = None;
            let cnt = s.len();
            for (j, e) in s.iter().enumerate() {
                if r.is_some() && j == 1 {
                    check_arr(e, n);
                    v = Some(vals(&e[..]));
                } else {
                    let w = vals(&e[..]);
                    gcheck_eq!(CONTENT, w, vec![nb], "neighbour {} of {}", j, cnt);
                    host(|| drop(w));
                }
            }
            if r.is_some() {
                for (j, e) in s.iter_mut().enumerate() {
                    if j == 1 {
                        let mut e = e;
                        mutate::<P>(n, |f| f(e.as_mut().mut_slice()));
                    }
                }
                for (j, e) in s.iter().enumerate() {
                    if j != 1 {
                        let w = vals(&e[..]);
                        gcheck_eq!(CONTENT, w, vec![nb], "neighbour {} after mutation", j);
                        host(|| drop(w));
                    }
                }
            }
            lib(|| drop(s));
            r.map(|_| Seen { vals: v })
        }
        2 => {
            let mut o = catch(|| lib(|| Owned::<Array<P, L>>::new_in(SizedInit(len, i), &env.bump)))?;
            check_arr(&o, n);
            let v = vals(&o[..]);
            mutate::<P>(n, |f| f(o.as_mut().mut_slice()));
            lib(|| drop(o));
            Some(Seen { vals: Some(v) })
        }
        3 => {
            type Tu<P, L> = Tup3<FixedLen<u8>, Array<P, L>, Array<u16, u8>>;
            let init = tup3::Init(FixedLen(7u8), SizedInit(len, i), SizedInit(3u8, FillSequentially(|i| i as u16 + 1)));
            let mut b = catch(|| lib(|| VBox::<Tu<P, L>>::new(init)))?;
            let v = {
                let r = b.refs();
                check_arr(r.1, n);
                vals(&r.1[..])
            };
            mutate::<P>(n, |f| f(b.as_mut().muts().1.mut_slice()));
            gcheck_eq!(CONTENT, (b.refs().0 .0, &b.refs().2[..]), (7, &[1u16, 2, 3][..]), "other fields after mutation");
            lib(|| drop(b));
            Some(Seen { vals: Some(v) })
        }
        _ => {
            macro_rules! fixed {
                ($($k:literal)*) => {
                    match n {
                        $($k => {
                            let a: [P; $k] = catch(|| lib(|| new_array::<P, $k>(i)))?;
                            let v = vals(&a[..]);
                            gcheck_eq!(CONTENT, v.len(), n, "length of the fixed-size array");
                            lib(|| drop(a));
                            Some(Seen { vals: Some(v) })
                        })*
                        _ => unreachable!(),
                    }
                };
            }
            fixed!(0 1 2 3 5 8 12 33 256)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Src {
    Fill,
    Iter,
    IterByRef,
    /// an iterator that says little about its length
    IterHint(usize),
    IterResumes,
    Clone,
    Copy,
    Move,
    Default,
    Slice,
    BoxedFn,
}
const SRCS: [Src; 14] = [Src::Fill, Src::Iter, Src::IterByRef, Src::IterHint(1), Src::IterHint(2), Src::IterHint(4), Src::IterHint(7), Src::IterResumes, Src::Clone, Src::Copy, Src::Move, Src::Default, Src::Slice, Src::BoxedFn];

/// An iterator that stops early once and would then go on.
struct Resumes<'a> {
    vals: &'a [u64],
    at: &'a Cell<usize>,
    gap: usize,
    gaps: Cell<bool>,
}
impl<'a> Iterator for Resumes<'a> {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        let i = self.at.get();
        if i == self.gap && !self.gaps.get() {
            self.gaps.set(true);
            return None;
        }
        self.at.set(i + 1);
        self.vals.get(i).copied()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, None)
    }
}

/// `n` elements from a source of `have`.
fn one<P: D, L: LenN>(src: Src, n: usize, have: usize, k: usize) {
    let env = Env::new();
    let vs: Vec<u64> = host(|| (0..have as u64).map(|i| i.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 7 & P::MASK).collect());
    log(|| format!("{:?} n={} have={} place={} {} {}", src, n, have, k, P::NAME, L::N));
    op();
    let pick = |i: usize| host(|| P::mk(vs.get(i).copied().unwrap_or(0)));
    let idx = RefCell::new(host(|| Vec::<usize>::with_capacity(n + have + 4)));
    let at = Cell::new(0usize);
    let mut want: Vec<u64> = host(|| vs.iter().copied().take(n).collect());
    let mut ok = true;
    let slice: &[P] = env.slice(&vs);
    let (c0, b0) = (clones(), births());
    let mut want_births = n as u64;
    let mut want_clones = Some(0);
    let r = match src {
        Src::Fill | Src::BoxedFn => {
            want = host(|| (0..n).map(|i| vs.get(i).copied().unwrap_or(0)).collect());
            let mut f = |i: usize| {
                host(|| idx.borrow_mut().push(i));
                pick(i)
            };
            if src == Src::Fill {
                place::<P, L>(k, n, FillSequentially(&mut f), &env)
            } else {
                // a closure that owns its state
                let b: Box<dyn FnMut(usize) -> P> = host(|| {
                    let vs = vs.clone();
                    Box::new(move |i| host(|| P::mk(vs.get(i).copied().unwrap_or(0))))
                });
                host(|| idx.borrow_mut().extend(0..n));
                place::<P, L>(k, n, FillSequentially(b), &env)
            }
        }
        Src::Iter => {
            ok = have >= n;
            let it = (0..have).map(|i| {
                host(|| idx.borrow_mut().push(i));
                pick(i)
            });
            place::<P, L>(k, n, FromIterPrefix(it), &env)
        }
        Src::IterByRef => {
            ok = have >= n;
            let mut it = (0..have).map(|i| {
                host(|| idx.borrow_mut().push(i));
                pick(i)
            });
            let r = place::<P, L>(k, n, FromIterPrefix(&mut it), &env);
            if ok {
                let left = it.len();
                gcheck_eq!(CALLS, left, have - n, "items left in the iterator");
            }
            r
        }
        Src::IterHint(hint) => {
            ok = have >= n;
            let it = (0..have).map(|i| {
                host(|| idx.borrow_mut().push(i));
                pick(i)
            });
            place::<P, L>(k, n, FromIterPrefix(mc::world::Hinted { it, hint }), &env)
        }
        Src::IterResumes => {
            let gap = have / 2;
            ok = n <= gap;
            let it = Resumes { vals: &vs, at: &at, gap, gaps: Cell::new(false) };
            let r = place::<P, L>(k, n, FromIterPrefix(it.map(|x| host(|| P::mk(x)))), &env);
            gcheck_eq!(CALLS, at.get(), n.min(gap), "items taken from the iterator");
            host(|| idx.borrow_mut().extend(0..n));
            r
        }
        Src::Clone => {
            ok = have == n;
            want_clones = Some(n as u64);
            place::<P, L>(k, n, CloneFrom(slice), &env)
        }
        Src::Copy => {
            ok = have == n;
            want_clones = if P::TOK { Some(n as u64) } else { Some(0) };
            place::<P, L>(k, n, P::copy_init(slice), &env)
        }
        Src::Move => {
            ok = have == n;
            macro_rules! mv {
                ($($k:literal [$($i:literal)*],)*) => {
                    match have {
                        $($k => place::<P, L>(k, n, MoveFrom::<P, $k>([$(pick($i)),*]), &env),)*
                        _ => return,
                    }
                };
            }
            mv!(0 [], 1 [0], 2 [0 1], 3 [0 1 2], 5 [0 1 2 3 4],)
        }
        Src::Default => {
            let d0 = defaults();
            want = host(|| (0..n).map(|i| default_val(P::NAME, d0 + i as u64)).collect());
            let r = place::<P, L>(k, n, FillWithDefault, &env);
            if counts_defaults(P::NAME) {
                gcheck_eq!(CALLS, defaults() - d0, n as u64, "values made by Default");
            }
            r
        }
        Src::Slice => {
            // the slice decides the length
            if k != 0 || n != have {
                return;
            }
            want_clones = Some(n as u64);
            let i = Array::<P, L>::try_clone_from_slice(slice);
            match i {
                None => {
                    check!(n > L::MAX, "slice of {} elements refused by length type {}", n, L::N);
                    return;
                }
                Some(i) => {
                    check!(n <= L::MAX, "slice of {} elements accepted by length type {}", n, L::N);
                    let l = Initializer::<Array<P, L>>::calculate_layout_cautious(&i);
                    check!(l.is_some(), "no layout for a slice of {} elements", n);
                    match catch(|| lib(|| VBox::<Array<P, L>>::new(i))) {
                        None => None,
                        Some(b) => {
                            check_arr(&b, n);
                            let v = vals(&b[..]);
                            lib(|| drop(b));
                            Some(Seen { vals: Some(v) })
                        }
                    }
                }
            }
        }
    };
    if !ok || r.is_none() {
        allow_live_tokens();
        allow_leaks();
    }
    check!(r.is_some() == ok, "{:?}: {} elements from a source of {} should {} (place {}): {}", src, n, have, if ok { "work" } else { "panic" }, k, last_panic());
    if let Some(Seen { vals: Some(v) }) = r {
        gcheck_eq!(CONTENT, v, want, "elements by {:?} ({} of {}, place {})", src, n, have, k);
        if matches!(src, Src::Fill | Src::BoxedFn | Src::Iter | Src::IterByRef | Src::IterHint(_) | Src::IterResumes) {
            let ix = host(|| idx.borrow().clone());
            gcheck_eq!(CALLS, ix, host(|| (0..n).collect::<Vec<_>>()), "order of calls by {:?}", src);
            host(|| drop(ix));
        }
        if matches!(P::NAME, "CK" | "CZ") {
            if let Some(c) = want_clones {
                gcheck_eq!(CALLS, clones() - c0, c, "clones made by {:?}", src);
            }
        }
        if P::TOK && k != 1 {
            // mutation makes one value per changed element, except in fixed-size arrays and slices
            if let Some(c) = want_clones {
                gcheck_eq!(CALLS, clones() - c0, c, "clones made by {:?}", src);
            }
            if k != 4 && src != Src::Slice {
                want_births += if n <= 64 { n } else { (n + n / 7 - 1) / (n / 7) } as u64;
            }
            gcheck_eq!(CALLS, births() - b0, want_births, "values made by {:?} (place {})", src, k);
        }
        host(|| drop(v));
    }
    host(|| drop((want, vs, idx)));
    drop(env);
}
fn fam<P: D, L: LenN>(v: &mut Vec<Section>, t: Tier) {
    let m = t.pick(13, 20);
    v.push(Section {
        name: format!("Array<{},{}> lengths 0..{} sources 0..{}", P::NAME, L::N, m - 1, m + 1),
        dev: 0,
        body: Box::new(move || {
            let src = SRCS[choose(SRCS.len())];
            let k = choose(PLACES);
            let n = choose(m);
            if k == 4 && !FIXED.contains(&n) {
                return;
            }
            let have = choose(m + 2);
            one::<P, L>(src, n, have, k);
        }),
    });
}
/// Sizes at the limits of the length types, exact sources and sources that miss by one.
fn limits<P: D, L: LenN>(v: &mut Vec<Section>, lens: &'static [usize]) {
    v.push(Section {
        name: format!("Array<{},{}> lengths {:?}", P::NAME, L::N, lens),
        dev: 0,
        body: Box::new(move || {
            let src = SRCS[choose(SRCS.len())];
            let n = lens[choose(lens.len())];
            let k = choose(PLACES);
            if src == Src::Move || n > L::MAX && src != Src::Slice || k == 4 && !FIXED.contains(&n) {
                return;
            }
            let have = match choose(4) {
                0 => n,
                1 => n.saturating_sub(1),
                2 => n + 1,
                _ => n * 2 + 2,
            };
            one::<P, L>(src, n, have, k);
        }),
    });
}
/// Array::copy, Array::clone_from_slice and try_copy with every length type.
fn slices<P: D + Copy, L: LenN>(v: &mut Vec<Section>, lens: &'static [usize]) {
    v.push(Section {
        name: format!("try_copy to Array<{},{}>, Array::copy, lengths 0..=40 and {:?}", P::NAME, L::N, lens),
        dev: 0,
        body: Box::new(move || {
            let j = choose(41 + lens.len());
            let n = if j <= 40 { j } else { lens[j - 41] };
            let env = Env::new();
            let vs: Vec<u64> = host(|| (0..n as u64).map(|i| (i * 0x9e37 + 3) & P::MASK).collect());
            let s: &[P] = env.slice(&vs);
            op();
            match choose(3) {
                0 => match Array::<P, L>::try_copy(s) {
                    None => check!(n > L::MAX, "slice of {} elements refused by {}", n, L::N),
                    Some(i) => {
                        check!(n <= L::MAX, "slice of {} elements accepted by {}", n, L::N);
                        let b = lib(|| VBox::<Array<P, L>>::new(i));
                        check_arr(&b, n);
                        let got = vals(&b[..]);
                        gcheck_eq!(CONTENT, got, vs, "copy of {} elements", n);
                        lib(|| drop(b));
                    }
                },
                1 => {
                    let b = lib(|| VBox::<Array<P>>::new(Array::copy(s)));
                    check_arr(&b, n);
                    let got = vals(&b[..]);
                    gcheck_eq!(CONTENT, got, vs, "Array::copy of {} elements", n);
                    lib(|| drop(b));
                }
                _ => {
                    let b = lib(|| VBox::<Array<P>>::new(Array::clone_from_slice(s)));
                    check_arr(&b, n);
                    let got = vals(&b[..]);
                    gcheck_eq!(CONTENT, got, vs, "Array::clone_from_slice of {} elements", n);
                    gcheck_eq!(CONTENT, b.calculate_layout() == Initializer::<Array<P>>::calculate_layout_cautious(&Array::clone_from_slice(s)).unwrap(), true, "layout predicted for {} elements", n);
                    lib(|| drop(b));
                }
            }
            host(|| drop(vs));
            drop(env);
        }),
    });
}
/// Elements of no size: as many as the length type can count. Nothing here looks at every element.
fn nothing<P: D + Copy, L: LenN>(v: &mut Vec<Section>) {
    assert!(std::mem::size_of::<P>() == 0);
    let mut ns: Vec<usize> = vec![0, 1, 2, 3, usize::MAX, usize::MAX - 1];
    for b in 2..64 {
        let x = 1usize << b;
        ns.extend([x - 1, x, x + 1, x / 2 * 3]);
    }
    ns.sort();
    ns.dedup();
    // whether or not the compiler removes a loop that does nothing
    if cfg!(debug_assertions) {
        ns.retain(|&n| n <= 1 << 18);
    }
    v.push(Section {
        name: format!("Array<{},{}>: elements of no size, {} lengths up to {}", P::NAME, L::N, ns.len(), L::MAX),
        dev: 0,
        body: Box::new(move || {
            type Tu<P, L> = Tup3<FixedLen<u8>, Array<P, L>, Array<u16, u8>>;
            let n = ns[choose(ns.len())];
            log(|| format!("{} elements", n));
            op();
            // any number of them can be viewed at one place
            let s: &[P] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::<P>::dangling().as_ptr(), n) };
            let i = Array::<P, L>::try_copy(s);
            check!(i.is_some() == (n <= L::MAX), "a slice of {} elements {} by {}", n, if i.is_some() { "accepted" } else { "refused" }, L::N);
            let Some(i) = i else { return };
            fn look<P: D, L: LenN>(a: &Array<P, L>, n: usize, what: &str) {
                gcheck_eq!(CONTENT, a.len(), n, "length of {}", what);
                gcheck_eq!(CONTENT, a.len_short().as_usize(), n, "len_short() of {}", what);
                gcheck_eq!(CONTENT, a[..].len(), n, "length of the slice of {}", what);
                gcheck_eq!(CONTENT, a.iter().len(), n, "elements by iter() of {}", what);
                gcheck_eq!(CONTENT, a.is_empty(), n == 0, "is_empty() of {}", what);
                gcheck_eq!(CONTENT, a.last().is_some(), n > 0, "last element of {}", what);
            }
            let len = L::from_usize(n).unwrap();
            macro_rules! init {
                () => {
                    SizedInit(len, CopyFrom(s))
                };
            }
            let env = Env::new();
            match choose(5) {
                0 => {
                    let mut b: VBox<Array<P, L>> = lib(|| VBox::new(i));
                    look(&b, n, "a box from try_copy");
                    gcheck_eq!(CONTENT, b.as_mut().mut_slice().len(), n, "length of the mutable view");
                    // handed on
                    let c: VBox<Array<P, L>> = lib(|| VBox::new(b));
                    look(&c, n, "a box from a box");
                    lib(|| drop(c));
                }
                1 => {
                    let mut b: VBox<Array<P, L>> = lib(|| VBox::new(init!()));
                    look(&b, n, "a box from CopyFrom");
                    gcheck_eq!(CONTENT, b.as_mut().refs_mut_len(), n, "length of the mutable view");
                    lib(|| drop(b));
                }
                2 => {
                    let mut q: Seq<Array<P, L>> = lib(|| Seq::new());
                    lib(|| {
                        q.push(init!());
                        q.push(SizedInit(L::from_usize(1).unwrap(), FillWithDefault));
                        q.push(init!());
                    });
                    let want = [n, 1, n];
                    gcheck_eq!(CONTENT, q.len(), 3, "elements of the sequence");
                    for (e, &w) in q.iter().zip(&want) {
                        look(e, w, "an element");
                    }
                    for (mut e, &w) in q.iter_mut().zip(&want) {
                        gcheck_eq!(CONTENT, e.as_mut().mut_slice().len(), w, "length of the mutable view");
                    }
                    for (o, &w) in q.take_elems().zip(&want) {
                        look(&o, w, "an element taken out");
                        lib(|| drop(o));
                    }
                    lib(|| drop(q));
                }
                3 => {
                    let mut o: Owned<Array<P, L>> = lib(|| Owned::new_in(init!(), &env.bump));
                    look(&o, n, "an arena object");
                    gcheck_eq!(CONTENT, o.as_mut().mut_slice().len(), n, "length of the mutable view");
                    let b: VBox<Array<P, L>> = lib(|| VBox::new(o));
                    look(&b, n, "a box from an arena object");
                    lib(|| drop(b));
                }
                _ => {
                    let init = tup3::Init(FixedLen(7u8), init!(), SizedInit(3u8, FillSequentially(|i| i as u16 + 1)));
                    let mut b = lib(|| VBox::<Tu<P, L>>::new(init));
                    look(b.refs().1, n, "a tuple field");
                    gcheck_eq!(CONTENT, b.as_mut().muts().1.mut_slice().len(), n, "length of the mutable view");
                    gcheck_eq!(CONTENT, (b.refs().0 .0, &b.refs().2[..]), (7, &[1u16, 2, 3][..]), "other fields");
                    lib(|| drop(b));
                }
            }
            drop(env);
        }),
    });
}
trait RefsMutLen {
    fn refs_mut_len(self) -> usize;
}
impl<P, L: LenN> RefsMutLen for std::pin::Pin<&mut Array<P, L>> {
    fn refs_mut_len(mut self) -> usize {
        self.as_mut().mut_slice().iter_mut().len()
    }
}
fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    macro_rules! f { ($($p:ty, $l:ty;)*) => { $( fam::<$p, $l>(&mut v, t); )* } }
    f!(u8, u8; u8, usize; u16, u8; u32, u16; u64, u8; u64, u32; [u8; 3], u16; (), u8; A16, u8; A64, u16; Z8, u64;
       T1, u8; T2, usize; T8, u8; T8, u16; T12, u32; T16, u64; T64, u8; TZ, u16; TZ16, u8; CK, u8; CZ, u16; DV, u8; DF, u32;);
    limits::<u8, u8>(&mut v, &[255, 256]);
    limits::<T8, u8>(&mut v, &[254, 255, 256]);
    limits::<u16, u8>(&mut v, &[255, 256, 257]);
    limits::<u64, u16>(&mut v, &[31, 32, 33, 64, 100, 255, 256, 65535, 65536]);
    limits::<TZ, u16>(&mut v, &[255, 256, 65535, 65536]);
    limits::<DV, u16>(&mut v, &[255, 256, 4097]);
    limits::<DF, u32>(&mut v, &[255, 256, 65537]);
    limits::<CZ, u16>(&mut v, &[255, 256, 65535]);
    limits::<u8, u32>(&mut v, &[255, 256, 65535, 65536, 70000, (1 << 20) + 5]);
    limits::<DV, usize>(&mut v, &[(1 << 20) - 1]);
    limits::<[u8; 3], u64>(&mut v, &[100, 65536]);
    slices::<u8, u8>(&mut v, &[254, 255, 256, 257, 65535, 65536]);
    slices::<u16, u16>(&mut v, &[255, 256, 65534, 65535, 65536]);
    slices::<(), u8>(&mut v, &[254, 255, 256, 65536]);
    slices::<A64, u32>(&mut v, &[255, 256, 65536]);
    slices::<[u8; 3], u64>(&mut v, &[255, 256, 65536]);
    slices::<u64, usize>(&mut v, &[255, 256, 65536]);
    nothing::<(), u8>(&mut v);
    nothing::<(), u16>(&mut v);
    nothing::<(), u32>(&mut v);
    nothing::<(), u64>(&mut v);
    nothing::<(), usize>(&mut v);
    nothing::<Z8, u16>(&mut v);
    nothing::<Z8, usize>(&mut v);
    v
}
fn main() {
    set_mask(CONTENT | CALLS);
    mc::driver::main(
        Meta {
            id: "C10",
            level: "model_checking",
            rule: "every source kind x place x declared length x source length; elements, order and number of calls compared with a list",
            bounds: "24 (element, length type) pairs with declared lengths 0..12 and source lengths 0..14 (0..19 and 0..21 thorough), 14 kinds of source, 5 places (box, sequence, arena, tuple field, fixed-size array of 0, 1, 2, 3, 5, 8, 12, 33 or 256); limits of u8 and u16 lengths +-1; arrays of elements of no size with up to usize::MAX elements".into(),
            assumptions: &["values leaked by a source that panics half-way are allowed"],
        },
        secs,
    );
}
