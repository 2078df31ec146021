//! The part of C05 that runs under the Miri interpreter: every history over a small alphabet, from empty
//! containers, with every single memory access judged (initialised, in bounds, alive, aligned, a valid value).
//! Contents are not judged here. Run as: mirimc PART PARTS DEPTH | mirimc TYPE-INDEX -- OP OP ...
use std::mem;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use varlen::array::*;
use varlen::array_init::*;
use varlen::newtype::*;
use varlen::prelude::*;
use varlen::seq::*;
use varlen::{FixedLen, Initializer, Owned, Seq, Str, VBox, VClone, VCopy, VarLen};

// ------------------------------------------------------------------ values
trait P: Clone + Default + Unpin + 'static {
    fn mk(x: u64) -> Self;
    fn v(&self) -> u64;
}
macro_rules! ints { ($($t:ty)*) => { $( impl P for $t { fn mk(x: u64) -> $t { x as $t } fn v(&self) -> u64 { *self as u64 } } )* } }
ints!(u8 u16 u32 u64);
impl P for () {
    fn mk(_: u64) {}
    fn v(&self) -> u64 {
        0
    }
}
impl P for bool {
    fn mk(x: u64) -> bool {
        x & 1 == 1
    }
    fn v(&self) -> u64 {
        if *self { 1 } else { 0 }
    }
}
impl P for char {
    fn mk(x: u64) -> char {
        char::from_u32(x as u32 & 0xfff).unwrap()
    }
    fn v(&self) -> u64 {
        *self as u64
    }
}
impl<T: P> P for Box<T> {
    fn mk(x: u64) -> Box<T> {
        Box::new(T::mk(x))
    }
    fn v(&self) -> u64 {
        (**self).v()
    }
}
impl P for [u8; 3] {
    fn mk(x: u64) -> [u8; 3] {
        [x as u8, (x >> 1) as u8, (x >> 2) as u8]
    }
    fn v(&self) -> u64 {
        self.iter().map(|x| *x as u64).sum()
    }
}
#[derive(Clone, Default)]
#[repr(align(32))]
struct A32(u8);
impl P for A32 {
    fn mk(x: u64) -> A32 {
        A32(x as u8)
    }
    fn v(&self) -> u64 {
        self.0 as u64
    }
}
/// A value with padding.
#[derive(Clone, Default)]
struct Pad(u8, u32, String);
impl P for Pad {
    fn mk(x: u64) -> Pad {
        Pad(x as u8, x as u32, x.to_string())
    }
    fn v(&self) -> u64 {
        self.0 as u64 + self.1 as u64 + self.2.bytes().map(|b| b as u64).sum::<u64>()
    }
}
#[derive(Clone, Default)]
struct Zd;
impl Drop for Zd {
    fn drop(&mut self) {}
}
impl P for Zd {
    fn mk(_: u64) -> Zd {
        Zd
    }
    fn v(&self) -> u64 {
        1
    }
}

// ------------------------------------------------------------------ objects
trait M: VarLen + Sized + 'static {
    fn init(k: usize) -> impl Initializer<Self>;
    /// the same by another route
    fn alt(k: usize) -> impl Initializer<Self> {
        Self::init(k)
    }
    /// one that panics half-way, if the type has a part of which that can be said
    fn bad(k: usize) -> impl Initializer<Self> {
        Self::init(k)
    }
    fn sum(&self) -> u64;
    fn poke(self: Pin<&mut Self>);
    fn clo(&self) -> Option<impl Initializer<Self> + '_> {
        None::<VBox<Self>>
    }
}
const N: [usize; 4] = [0, 1, 4, 9];
impl<T: P> M for FixedLen<T> {
    fn init(k: usize) -> impl Initializer<Self> {
        FixedLen(T::mk(k as u64 + 3))
    }
    fn sum(&self) -> u64 {
        self.0.v()
    }
    fn poke(mut self: Pin<&mut Self>) {
        self.set(FixedLen(T::mk(5)));
        let r = &mut Pin::into_inner(self).0;
        *r = T::mk(r.v() + 1);
    }
    fn clo(&self) -> Option<impl Initializer<Self> + '_> {
        Some(self.vclone())
    }
}
impl<T: P, L: ArrayLen> M for Array<T, L> {
    fn init(k: usize) -> impl Initializer<Self> {
        SizedInit(L::from_usize(N[k]).unwrap(), FillSequentially(|i| T::mk(i as u64 + 7)))
    }
    fn alt(k: usize) -> impl Initializer<Self> {
        SizedInit(L::from_usize(N[k]).unwrap(), FromIterPrefix((0..20).map(T::mk)))
    }
    fn bad(k: usize) -> impl Initializer<Self> {
        SizedInit(L::from_usize(N[k]).unwrap(), FillSequentially(|i| if i == 2 { panic!() } else { T::mk(i as u64) }))
    }
    fn sum(&self) -> u64 {
        self.iter().map(|x| x.v()).sum::<u64>() + self.len() as u64 + self.len_short().as_usize() as u64
    }
    fn poke(mut self: Pin<&mut Self>) {
        for x in self.as_mut().mut_slice() {
            *x = T::mk(x.v() + 1);
        }
        self.mut_slice().reverse();
    }
    fn clo(&self) -> Option<impl Initializer<Self> + '_> {
        Some(self.vclone())
    }
}
impl<L: ArrayLen> M for Str<L> {
    fn init(k: usize) -> impl Initializer<Self> {
        Str::try_copy(["", "x", "h\u{e9}llo", "four\u{10348}score and more"][k]).unwrap()
    }
    fn sum(&self) -> u64 {
        self.chars().map(|c| c as u64).sum::<u64>() + self.len() as u64
    }
    fn poke(self: Pin<&mut Self>) {
        self.mut_slice().make_ascii_uppercase();
    }
    fn clo(&self) -> Option<impl Initializer<Self> + '_> {
        Some(self.vclone())
    }
}
macro_rules! tuple {
    ($T:ident $m:ident $($A:ident $i:tt)*) => {
        impl<$($A: M + for<'a> VClone<'a>),*> M for $T<$($A),*> {
            fn init(k: usize) -> impl Initializer<Self> {
                $m::Init($($A::init((k + $i) % 4)),*)
            }
            fn alt(k: usize) -> impl Initializer<Self> {
                $m::Init($(VBox::<$A>::new($A::alt((k + $i) % 4))),*)
            }
            fn bad(k: usize) -> impl Initializer<Self> {
                $m::Init($($A::bad((k + $i) % 4)),*)
            }
            fn sum(&self) -> u64 {
                let r = self.refs();
                0 $(+ r.$i.sum())*
            }
            fn poke(self: Pin<&mut Self>) {
                let r = self.muts();
                $( r.$i.poke(); )*
            }
            fn clo(&self) -> Option<impl Initializer<Self> + '_> {
                Some(self.vclone())
            }
        }
    };
}
tuple!(Tup2 tup2 A 0 B 1);
tuple!(Tup3 tup3 A 0 B 1 C 2);
tuple!(Tup5 tup5 A 0 B 1 C 2 D 3 E 4);

define_varlen_newtype! {
    #[repr(transparent)]
    struct W<(T: VarLen)>(T);
    with signature: impl<(T: VarLen)> W<(T)> { _ }
    with init: struct WInit<_>(_);
    with inner_ref: fn inner(&self) -> &_;
    with inner_mut: fn inner_mut(self: _) -> _;
}
impl<T: M> M for W<T> {
    fn init(k: usize) -> impl Initializer<Self> {
        WInit(T::init(k))
    }
    fn alt(k: usize) -> impl Initializer<Self> {
        WInit(VBox::<T>::new(T::alt(k)))
    }
    fn bad(k: usize) -> impl Initializer<Self> {
        WInit(T::bad(k))
    }
    fn sum(&self) -> u64 {
        self.inner().sum()
    }
    fn poke(self: Pin<&mut Self>) {
        self.inner_mut().poke()
    }
}

#[define_varlen]
struct S1 {
    tag: bool,
    #[controls_layout]
    n: u8,
    c: char,
    #[varlen_array]
    a: [u64; *n as usize],
    #[varlen_array]
    b: [u8; (*n as usize) * 2 + 1],
    #[varlen]
    s: Str<u8>,
    #[varlen_array]
    d: [Box<u16>; *n as usize + 1],
}
impl M for S1 {
    fn init(k: usize) -> impl Initializer<Self> {
        s_1::Init {
            tag: true,
            n: N[k] as u8,
            c: 'q',
            a: FillSequentially(|i| i as u64),
            b: FillWithDefault,
            s: Str::try_copy(["", "x", "abc", "abcdefghi"][k]).unwrap(),
            d: FillSequentially(|i| Box::new(i as u16)),
        }
    }
    fn bad(k: usize) -> impl Initializer<Self> {
        s_1::Init {
            tag: true,
            n: N[k] as u8,
            c: 'q',
            a: FillSequentially(|i| i as u64),
            b: FillWithDefault,
            s: VBox::<Str<u8>>::new(Str::try_copy("ab").unwrap()),
            d: FillSequentially(|i| if i == 1 { panic!() } else { Box::new(i as u16) }),
        }
    }
    fn sum(&self) -> u64 {
        let r = self.refs();
        r.tag.v() + *r.n as u64 + *r.c as u64 + r.a.iter().sum::<u64>() + r.b.iter().map(|x| *x as u64).sum::<u64>() + r.s.sum() + r.d.iter().map(|x| x.v()).sum::<u64>() + self.c as u64
    }
    fn poke(mut self: Pin<&mut Self>) {
        {
            let m = self.as_mut().muts();
            *m.tag = !*m.tag;
            *m.c = 'z';
            m.a.iter_mut().for_each(|x| *x += 1);
            m.b.iter_mut().for_each(|x| *x += 1);
            m.s.poke();
            m.d.iter_mut().for_each(|x| *x = Box::new(**x + 1));
        }
        let n = self.n;
        let _ = self.as_mut().try_set_layout_controllers(s_1::LayoutControllers { n });
        assert!(self.try_set_layout_controllers(s_1::LayoutControllers { n: n + 1 }).is_err());
    }
}
#[define_varlen]
struct S2<T: P = u8> {
    #[varlen]
    x: Array<T, u16>,
    #[controls_layout]
    l: usize,
    #[varlen]
    y: Tup2<FixedLen<u16>, Array<u32, u8>>,
    #[varlen_array]
    z: [T; *l / 2],
}
impl<T: P> M for S2<T> {
    fn init(k: usize) -> impl Initializer<Self> {
        s_2::Init { x: Array::<T, u16>::init(k), l: N[3 - k], y: Tup2::init(k), z: FillSequentially(|i| T::mk(i as u64)) }
    }
    fn bad(k: usize) -> impl Initializer<Self> {
        s_2::Init { x: Array::<T, u16>::alt(k), l: N[k], y: Tup2::bad(k), z: FromIterPrefix(std::iter::once(T::mk(1))) }
    }
    fn sum(&self) -> u64 {
        let r = self.refs();
        r.x.sum() + *r.l as u64 + r.y.sum() + r.z.iter().map(|x| x.v()).sum::<u64>()
    }
    fn poke(mut self: Pin<&mut Self>) {
        {
            let m = self.as_mut().muts();
            m.x.poke();
            m.y.poke();
            m.z.iter_mut().for_each(|x| *x = T::mk(x.v() + 1));
        }
        let l = self.l | 1;
        let _ = self.try_set_layout_controllers(s_2::LayoutControllers { l });
    }
}

// ------------------------------------------------------------------ histories
struct W0<'b, T: M> {
    bump: &'b bumpalo::Bump,
    a: Seq<T, CheckedIndexing>,
    b: Seq<T>,
    bx: Option<VBox<T>>,
    ow: Option<Owned<'b, T>>,
    leaked: Vec<Pin<&'b mut T>>,
    acc: u64,
}
const OPS: [&str; 24] = [
    "push", "push large", "push by parts", "push a box", "push 5", "take: move 1", "take: drop", "take to box", "collect", "forget after 1", "box", "box to arena", "arena to sequence", "arena leak",
    "write", "lookup", "clone", "failing push", "new sequence", "iterators", "raw", "new indexable sequence", "extend", "failing box and arena",
];
impl<'b, T: M> W0<'b, T> {
    fn apply(&mut self, o: usize) -> bool {
        match o {
            0 => self.a.push(T::init(1)),
            1 => self.a.push(T::init(3)),
            2 => self.a.push(T::alt(2)),
            3 => match self.bx.take() {
                Some(b) => self.a.push(b),
                None => return false,
            },
            4 => {
                for k in [0, 3, 1, 2, 2] {
                    self.a.push(T::init(k))
                }
            }
            5 => {
                if self.a.len() == 0 {
                    return false;
                }
                let mut it = self.a.take_elems();
                if let Some(e) = it.next() {
                    self.b.push(e)
                }
            }
            6 => drop(self.a.take_elems()),
            7 => {
                if self.a.len() == 0 || self.bx.is_some() {
                    return false;
                }
                let mut it = self.a.take_elems();
                let _ = it.next();
                self.bx = it.next().map(VBox::new);
            }
            8 => {
                let s: Seq<T, CheckedIndexing> = self.a.take_elems().collect();
                self.a = s;
                for e in self.b.take_elems() {
                    self.a.push(e)
                }
            }
            9 => {
                let mut it = self.a.take_elems();
                let _ = it.next();
                mem::forget(it);
            }
            10 => self.bx = Some(VBox::new(T::init(2))),
            11 => match self.bx.take() {
                Some(b) if self.ow.is_none() => self.ow = Some(Owned::new_in(b, self.bump)),
                _ => return false,
            },
            12 => match self.ow.take() {
                Some(o) => self.a.push(o),
                None => {
                    self.ow = Some(Owned::new_in(T::alt(1), self.bump));
                }
            },
            13 => match self.ow.take() {
                Some(o) => self.leaked.push(o.leak()),
                None => return false,
            },
            14 => {
                for e in self.a.iter_mut() {
                    e.poke()
                }
                for e in self.b.iter_mut() {
                    e.poke()
                }
                if let Some(b) = &mut self.bx {
                    b.as_mut().poke()
                }
                if let Some(b) = &mut self.ow {
                    b.as_mut().poke()
                }
                for l in &mut self.leaked {
                    l.as_mut().poke()
                }
            }
            15 => {
                let offs: Vec<usize> = self.a.iter().map(|e| self.a.offset_of(e)).collect();
                for o in offs {
                    if self.a.is_offset_valid(o) {
                        self.acc += self.a.from_offset(o).sum();
                        self.a.from_offset_mut(o).poke();
                    }
                }
                for o in (0..20).chain([self.a.offset(), self.a.capacity_in_offsets(), usize::MAX]) {
                    self.acc += self.a.is_offset_valid(o) as u64;
                }
                let offs: Vec<usize> = self.b.iter().map(|e| self.b.offset_of(e)).collect();
                for o in offs {
                    unsafe {
                        self.acc += self.b.from_offset_unchecked(o).sum();
                        self.b.from_offset_unchecked_mut(o).poke();
                    }
                }
            }
            16 => {
                for e in self.a.iter() {
                    if let Some(c) = e.clo() {
                        self.b.push(c)
                    }
                }
                if let Some(b) = self.bx.take() {
                    let c = b.clo().map(|c| VBox::new(c));
                    drop(b);
                    self.bx = c;
                }
                if let Some(o) = &self.ow {
                    if let Some(c) = o.clo() {
                        let c = Owned::new_in(c, self.bump);
                        self.acc += c.sum();
                    }
                }
            }
            17 => {
                let _ = catch_unwind(AssertUnwindSafe(|| self.a.push(T::bad(3))));
            }
            18 => {
                let old = mem::replace(&mut self.a, Seq::new());
                for e in old.iter() {
                    self.acc += e.sum();
                }
            }
            19 => {
                let it = self.a.iter();
                self.acc += it.limited_to(2).map(|e| e.sum()).sum::<u64>();
                self.acc += self.a.iter().last().map_or(0, |e| e.sum());
                self.acc += self.a.iter().nth(1).map_or(0, |e| e.sum());
                self.acc += self.a.iter().size_hint().0 as u64 + it.len() as u64;
                self.acc += self.a.iter_mut().limited_to(1).map(|e| e.sum()).sum::<u64>();
                if let Some(e) = self.a.iter_mut().nth(1) {
                    e.poke()
                }
            }
            20 => {
                if self.bx.is_none() && self.ow.is_none() {
                    return false;
                }
                if let Some(b) = self.bx.take() {
                    self.bx = Some(unsafe { VBox::from_raw(b.into_raw()) });
                }
                if let Some(o) = self.ow.take() {
                    self.ow = Some(unsafe { Owned::from_raw(o.into_raw()) });
                }
            }
            21 => self.a = Seq::new_indexable(),
            22 => {
                self.b.extend(self.a.take_elems());
                self.a.extend([T::init(0), T::init(2)]);
            }
            _ => {
                let bump = self.bump;
                let _ = catch_unwind(AssertUnwindSafe(|| drop(VBox::<T>::new(T::bad(3)))));
                let _ = catch_unwind(AssertUnwindSafe(|| drop(Owned::<T>::new_in(T::bad(3), bump))));
            }
        }
        self.touch();
        true
    }
    fn touch(&mut self) {
        let mut s = 0;
        for e in self.a.iter() {
            s += e.sum();
        }
        for e in self.b.iter() {
            s += e.sum();
        }
        if let Some(b) = &self.bx {
            s += b.sum()
        }
        if let Some(b) = &self.ow {
            s += b.sum()
        }
        for l in &self.leaked {
            s += l.sum()
        }
        self.acc = self.acc.wrapping_add(s);
    }
}
/// Runs a history; the index of the operation that is not possible there, if any.
fn run<T: M>(word: &[usize]) -> Option<usize> {
    let bump = bumpalo::Bump::new();
    let mut w: W0<T> = W0 { bump: &bump, a: Seq::new(), b: Seq::new_minimal(), bx: None, ow: None, leaked: vec![], acc: 0 };
    for (i, o) in word.iter().enumerate() {
        match catch_unwind(AssertUnwindSafe(|| w.apply(*o))) {
            Ok(true) => {}
            Ok(false) => return Some(i),
            // a panic is another property's business
            Err(_) => break,
        }
    }
    drop(w);
    drop(bump);
    None
}
/// Bitwise copies (of the types that have them) into every kind of place.
fn copies<T: M + for<'a> VCopy<'a>>(word: &[usize]) -> Option<usize> {
    if word.len() > 1 && word[1..].iter().any(|o| *o >= 4) {
        return word.iter().skip(1).position(|o| *o >= 4).map(|i| i + 1);
    }
    if word[0] >= 16 {
        return Some(0);
    }
    let bump = bumpalo::Bump::new();
    let mut acc = 0;
    let (a, b) = (word[0] / 4, word[0] % 4);
    // the source: alone in an allocation of its size, in an arena, and in the middle of a sequence
    let src: VBox<T> = VBox::new(T::init(a));
    let own: Owned<T> = Owned::new_in(T::init(b), &bump);
    let mut q: Seq<T, CheckedIndexing> = Seq::new();
    q.push(src.vcopy());
    q.push(own.vcopy());
    q.push(src.vcopy());
    for e in q.iter() {
        let mut c: VBox<T> = VBox::new(e.vcopy());
        c.as_mut().poke();
        let d: Owned<T> = Owned::new_in(e.vcopy(), &bump);
        let t: VBox<Tup2<T, T>> = VBox::new(tup2::Init(c.vcopy(), d.vcopy()));
        let u: VBox<Tup2<T, T>> = VBox::new(tup2::Init(c.vclone(), t.refs().0.vcopy()));
        let w: VBox<W<T>> = VBox::new(WInit(u.refs().1.vcopy()));
        acc += c.sum() + d.sum() + t.sum() + u.sum() + w.sum();
    }
    let mut r: Seq<T> = Seq::new();
    for k in &word[1..] {
        r.extend(q.iter().map(|e| e.vcopy()));
        r.push(T::init(*k));
    }
    for e in r.iter() {
        acc += e.sum();
    }
    std::hint::black_box(acc);
    None
}
fn types() -> Vec<(&'static str, fn(&[usize]) -> Option<usize>)> {
    macro_rules! l { ($($t:ty;)*) => { vec![$((stringify!($t), run::<$t> as fn(&[usize]) -> Option<usize>)),*] } }
    macro_rules! c { ($($t:ty;)*) => { vec![$((concat!("copies of ", stringify!($t)), copies::<$t> as fn(&[usize]) -> Option<usize>)),*] } }
    let mut v = l! {
        Array<u8, u8>;
        Str;
        Tup3<FixedLen<u8>, Array<u64, u16>, Str<u8>>;
        FixedLen<Box<u32>>;
        Array<Box<u8>, u16>;
        S1;
        Tup2<FixedLen<u16>, Array<Box<u32>, u8>>;
        W<Array<u16, u8>>;
        Array<A32, u8>;
        S2<u8>;
        FixedLen<[u8; 3]>;
        Array<Pad>;
        Tup5<Str<u8>, Array<u16, u8>, FixedLen<Pad>, Array<u8, u32>, FixedLen<bool>>;
        FixedLen<()>;
        Array<(), u8>;
        Array<Zd, u16>;
        S2<Box<u64>>;
        Str<u16>;
        Array<u64, u8>;
        Array<char, u64>;
        W<Tup2<Str<u8>, FixedLen<u64>>>;
        Tup2<Tup2<FixedLen<u8>, Array<u32, u8>>, Tup2<Array<Box<u8>, u8>, FixedLen<A32>>>;
        FixedLen<A32>;
        FixedLen<u64>;
    };
    v.extend(c! {
        Array<u8, u8>;
        Str<u16>;
        Tup2<FixedLen<u32>, Str<u8>>;
        Tup3<FixedLen<u8>, Array<u64, u16>, Str<u8>>;
        Tup2<Tup2<FixedLen<u8>, Array<u32, u8>>, FixedLen<char>>;
        FixedLen<u64>;
        Array<(), u8>;
    });
    v
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let ts = types();
    if a.len() > 2 && a[2] == "--" {
        let w: Vec<usize> = a[3..].iter().map(|s| s.parse().unwrap()).collect();
        let (n, f) = ts[a[1].parse::<usize>().unwrap()];
        println!("{}: {:?}", n, w.iter().map(|o| OPS[*o]).collect::<Vec<_>>());
        println!("{:?}", f(&w));
        return;
    }
    let [part, parts, depth] = [1, 2, 3].map(|i| a[i].parse::<usize>().unwrap());
    // the whole tree of every type, split among the processes by first operation
    let (mut execs, mut ops) = (0u64, 0u64);
    for (i, (_, f)) in ts.iter().enumerate() {
        let (mut te, mut to) = (0u64, 0u64);
        for first in 0..OPS.len() {
            if (first + i) % parts != part || depth == 0 {
                continue;
            }
            let mut w = vec![0; depth];
            w[0] = first;
            'words: loop {
                // on stderr, so that the last one is known when the interpreter stops
                eprintln!("@{} {}", i, w.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(" "));
                let at = f(&w);
                if at.is_none() {
                    te += 1;
                    to += depth as u64;
                }
                let mut p = at.unwrap_or(depth - 1);
                if p == 0 {
                    break;
                }
                w[p + 1..].fill(0);
                loop {
                    w[p] += 1;
                    if w[p] < OPS.len() {
                        break;
                    }
                    w[p] = 0;
                    p -= 1;
                    if p == 0 {
                        break 'words;
                    }
                }
            }
        }
        execs += te;
        ops += to;
    }
    println!("DONE {} {}", execs, ops);
}
