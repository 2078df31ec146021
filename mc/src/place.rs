//! One object of type T in one of the places an object can live, with whatever surrounds it there.
use crate::alloc::{host, lib};
use crate::explore::*;
use crate::newt::{WInit, W};
use crate::subj::*;
use crate::gcheck_eq;
use std::pin::Pin;
use varlen::array_init::FillSequentially;
use varlen::array::SizedInit;
use varlen::prelude::{tup3, Array, Tup3};
use varlen::seq::Seq;
use varlen::{define_varlen, FixedLen, Initializer, Owned, VBox, VarLen};

pub type Tu<T> = Tup3<FixedLen<u8>, T, Array<u16, u8>>;

/// A macro struct with a field of any type between others.
#[define_varlen]
pub struct Holder<T: VarLen = FixedLen<u8>> {
    #[controls_layout]
    pub n: u8,
    pub k: u32,
    #[varlen]
    pub head: FixedLen<u8>,
    #[varlen]
    pub t: T,
    #[varlen_array]
    pub after: [u16; *n as usize],
}

pub const PLACES: usize = 8;
pub enum Pl<'e, T: Subj> {
    Box(VBox<T>),
    Own(Owned<'e, T>),
    /// the middle one of three
    Seq(Seq<T>, Val),
    /// the middle one of three, added by extend
    Tup(VBox<Tu<T>>),
    Wrap(VBox<W<T>>),
    Field(VBox<Holder<T>>),
    /// the middle of a caller's own buffer, through `calculate_layout_cautious` and `initialize`
    Raw(RawObj<T>),
}
/// An object in a buffer of its owner's.
pub struct RawObj<T: VarLen> {
    buf: Vec<u8>,
    at: usize,
    size: usize,
    _t: std::marker::PhantomData<T>,
}
impl<T: VarLen> RawObj<T> {
    fn new(init: impl Initializer<T>) -> Self {
        let l = match lib(|| init.calculate_layout_cautious()) {
            Some(l) => l,
            None => crate::fail!("an initializer of an existing object has no layout"),
        };
        let size = varlen::Layout::size(&l);
        let buf = host(|| vec![0x5cu8; size + 3 * T::ALIGN + 32]);
        let at = up(buf.as_ptr() as usize + T::ALIGN + 1, T::ALIGN) - buf.as_ptr() as usize;
        let o = RawObj { buf, at, size, _t: std::marker::PhantomData };
        lib(|| unsafe { init.initialize(o.ptr(), l) });
        o
    }
    fn ptr(&self) -> std::ptr::NonNull<T> {
        unsafe { std::ptr::NonNull::new_unchecked(self.buf.as_ptr().add(self.at) as *mut T) }
    }
    fn check_around(&self) {
        let end = self.at + self.size;
        let bad = host(|| (0..self.at).chain(end..self.buf.len()).find(|&i| self.buf[i] != 0x5c));
        gcheck_eq!(CONTENT, bad.map(|i| i as isize - self.at as isize), None, "position of a byte written outside the {}-byte object in a buffer", self.size);
    }
}
impl<T: VarLen> Drop for RawObj<T> {
    fn drop(&mut self) {
        lib(|| unsafe {
            let l = self.ptr().as_ref().calculate_layout();
            Pin::new_unchecked(self.ptr().as_mut()).vdrop(l);
        });
        self.check_around();
        host(|| drop(std::mem::take(&mut self.buf)));
    }
}
pub const NAMES: [&str; PLACES] = ["box", "arena", "sequence", "extended sequence", "tuple field", "wrapper", "struct field", "buffer"];

fn nb<T: Subj>(lens: &[usize]) -> Val {
    host(|| T::make(lens, 0xabcd))
}
impl<'e, T: Subj> Pl<'e, T> {
    pub fn put(p: usize, init: impl Initializer<T>, small: &[usize], env: &'e Env) -> Self {
        let direct = |v: &Val| host(|| T::direct(v, &mut |_| 0, env));
        match p {
            0 => Pl::Box(lib(|| VBox::new(init))),
            1 => {
                env.guard();
                let o = Pl::Own(lib(|| Owned::new_in(init, &env.bump)));
                env.guard();
                o
            }
            2 => {
                let v = nb::<T>(small);
                let mut s = lib(|| Seq::new());
                let (a, b) = (direct(&v), direct(&v));
                lib(|| {
                    s.push(a);
                    s.push(init);
                    s.push(b);
                });
                Pl::Seq(s, v)
            }
            3 => {
                let v = nb::<T>(small);
                let mut s = lib(|| Seq::new());
                let l = host(|| vec![DynInit::<T>::new(direct(&v)), DynInit::new(init), DynInit::new(direct(&v))]);
                lib(|| s.extend(l));
                Pl::Seq(s, v)
            }
            4 => Pl::Tup(lib(|| VBox::new(tup3::Init(FixedLen(7u8), init, SizedInit(3u8, FillSequentially(|i| i as u16 + 1)))))),
            5 => Pl::Wrap(lib(|| VBox::new(WInit(init)))),
            7 => Pl::Raw(RawObj::new(init)),
            _ => Pl::Field(lib(|| {
                VBox::new(holder::Init { n: 2, k: 0x7788_9900, head: FixedLen(5u8), t: init, after: FillSequentially(|i| i as u16 + 9) })
            })),
        }
    }
    /// values with destructors that surround the object
    pub fn around(&self) -> i64 {
        match self {
            Pl::Seq(_, v) => 2 * tokens::<T>(v),
            _ => 0,
        }
    }
    pub fn with<R>(&self, f: impl FnOnce(&T) -> R) -> R {
        match self {
            Pl::Box(b) => f(b),
            Pl::Own(o) => f(o),
            Pl::Seq(s, _) => match s.iter().nth(1) {
                Some(e) => f(e),
                None => crate::fail!("the element is gone from its sequence"),
            },
            Pl::Tup(t) => f(t.refs().1),
            Pl::Wrap(w) => f(w.inner()),
            Pl::Field(h) => f(h.refs().t),
            Pl::Raw(r) => f(unsafe { r.ptr().as_ref() }),
        }
    }
    pub fn with_mut<R>(&mut self, f: impl FnOnce(Pin<&mut T>) -> R) -> R {
        match self {
            Pl::Box(b) => f(b.as_mut()),
            Pl::Own(o) => f(o.as_mut()),
            Pl::Seq(s, _) => match s.iter_mut().nth(1) {
                Some(e) => f(e),
                None => crate::fail!("the element is gone from its sequence"),
            },
            Pl::Tup(t) => f(t.as_mut().muts().1),
            Pl::Wrap(w) => f(w.as_mut().inner_mut()),
            Pl::Field(h) => f(h.as_mut().muts().t),
            Pl::Raw(r) => f(unsafe { Pin::new_unchecked(r.ptr().as_mut()) }),
        }
    }
    /// Everything around the object is as it was put there.
    pub fn check_around(&self) {
        match self {
            Pl::Seq(s, v) => {
                gcheck_eq!(CONTENT, s.len(), 3, "length of the sequence");
                let mut n = 0;
                for (i, e) in s.iter().enumerate() {
                    n += 1;
                    if i != 1 {
                        let got = read::<T>(e);
                        gcheck_eq!(CONTENT, &got, v, "neighbour {}", i);
                        host(|| drop(got));
                    }
                }
                gcheck_eq!(CONTENT, n, 3, "elements yielded");
            }
            Pl::Tup(t) => {
                let r = t.refs();
                gcheck_eq!(CONTENT, (r.0 .0, &r.2[..]), (7, &[1u16, 2, 3][..]), "other fields of the tuple");
            }
            Pl::Field(h) => {
                let r = h.refs();
                gcheck_eq!(CONTENT, (*r.n, *r.k, r.head.0, r.after), (2, 0x7788_9900, 5, &[9u16, 10][..]), "other fields of the struct");
            }
            Pl::Raw(r) => r.check_around(),
            _ => {}
        }
    }
    pub fn check(&self, v: &Val, what: &str) {
        let got = self.with(|t| read::<T>(t));
        gcheck_eq!(CONTENT, &got, v, "content of the object in a {} {}", self.name(), what);
        let size = self.with(|t| varlen::Layout::size(&lib(|| t.calculate_layout())));
        let want = r_size::<T>(&host(|| lens_of::<T>(v)));
        gcheck_eq!(CONTENT, size, want, "size of the object in a {} {}", self.name(), what);
        host(|| drop(got));
        self.check_around();
        stop_if_violated();
    }
    pub fn name(&self) -> &'static str {
        match self {
            Pl::Box(_) => "box",
            Pl::Own(_) => "arena",
            Pl::Seq(..) => "sequence",
            Pl::Tup(_) => "tuple field",
            Pl::Wrap(_) => "wrapper",
            Pl::Field(_) => "struct field",
            Pl::Raw(_) => "buffer",
        }
    }
}
/// Cells worth writing: first, middle and last of every part.
pub fn cells<T: Subj>(v: &Val) -> Vec<(usize, usize)> {
    host(|| {
        let mut ks = vec![];
        T::kinds(&mut ks);
        let mut out = vec![];
        for (l, c) in v.iter().enumerate() {
            if c.is_empty() {
                continue;
            }
            let mut is = vec![0, c.len() / 2, c.len() - 1];
            is.dedup();
            match ks[l] {
                Kind::Str(_) => is.truncate(1),
                Kind::Ctl => continue,
                _ => {}
            }
            out.extend(is.iter().map(|&i| (l, i)));
        }
        out
    })
}
