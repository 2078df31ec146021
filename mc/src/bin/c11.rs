use mc::alloc::{host, lib};
use mc::driver::*;
use mc::explore::*;
use mc::subj::*;
use mc::clients::Client;
use mc::zoo::*;
use mc::{check, gcheck_eq};
use varlen::{Initializer, Owned, Seq, VBox, VClone, VCopy};

#[varlen::define_varlen]
struct SStr<L: LenN = usize> {
    tag: u8,
    #[varlen]
    name: Str<L>,
}
const ALPHA: [char; 8] = ['a', 'Z', '\0', '\u{7f}', 'é', '字', '🦀', '\u{10ffff}'];

fn mutations(s: &str) -> usize {
    // none, upper, lower, and upper/lower of each prefix and suffix
    3 + 4 * (s.chars().count() + 1)
}
fn mutate(k: usize, s: &mut str) {
    match k {
        0 => {}
        1 => s.make_ascii_uppercase(),
        2 => s.make_ascii_lowercase(),
        k => {
            let at = s.char_indices().map(|(i, _)| i).chain([s.len()]).nth((k - 3) / 4).unwrap();
            let (a, b) = s.split_at_mut(at);
            match (k - 3) % 4 {
                0 => a.make_ascii_uppercase(),
                1 => a.make_ascii_lowercase(),
                2 => b.make_ascii_uppercase(),
                _ => b.make_ascii_lowercase(),
            }
        }
    }
}
fn same(got: &str, want: &str, what: &str) {
    if got.len() > 1 << 25 {
        mc::fail!("string of absurd length {}", got.len());
    }
    if got.as_bytes() != want.as_bytes() {
        gcheck_eq!(CONTENT, got.as_bytes(), want.as_bytes(), "{}", what);
    }
    check!(std::str::from_utf8(got.as_bytes()).is_ok(), "{}: invalid UTF-8 {:?}", what, got.as_bytes());
    gcheck_eq!(CONTENT, got.chars().count(), want.chars().count(), "{}: number of characters", what);
}
const ROUTE: usize = 12;
/// Build by route, mutate there, compare; then hand over again.
fn trip<L: LenN>(s: &str, route: usize, mu: usize, env: &Env) {
    op();
    let init = || match Str::<L>::try_copy(s) {
        Some(i) => {
            check!(s.len() <= L::MAX, "{} bytes accepted by {}", s.len(), L::N);
            i
        }
        None => mc::fail!("string of {} bytes refused by {}", s.len(), L::N),
    };
    let mut w = host(|| s.to_string());
    let again = |b: VBox<Str<L>>, w: &str| {
        same(&b, w, "after mutation");
        let c = lib(|| b.clone());
        same(&c, w, "clone of it");
        let mut q: Seq<Str<L>> = lib(|| Seq::new());
        lib(|| q.push(c));
        lib(|| q.push(b.vcopy()));
        lib(|| q.push(b));
        for e in q.iter() {
            same(e, w, "in a sequence");
        }
        lib(|| drop(q));
    };
    match route {
        0 => {
            let mut b = lib(|| VBox::<Str<L>>::new(init()));
            same(&b, &w, "boxed string");
            mutate(mu, b.as_mut().mut_slice());
            mutate(mu, &mut w);
            again(b, &w);
        }
        1 => {
            let mut o = lib(|| Owned::<Str<L>>::new_in(init(), &env.bump));
            same(&o, &w, "string in an arena");
            mutate(mu, o.as_mut().mut_slice());
            mutate(mu, &mut w);
            again(lib(|| VBox::new(o)), &w);
        }
        2 => {
            let mut q: Seq<Str<L>, C> = lib(|| Seq::new());
            for _ in 0..3 {
                lib(|| q.push(init()));
            }
            let mut k = 0;
            for e in q.iter_mut() {
                same(&e, &w, "string in a sequence");
                if k == 1 {
                    mutate(mu, e.mut_slice());
                }
                k += 1;
            }
            let mut m = host(|| s.to_string());
            mutate(mu, &mut m);
            for (k, e) in q.iter().enumerate() {
                same(e, if k == 1 { &m } else { s }, "string in a sequence, one of which was changed");
            }
            host(|| drop(m));
            let mut it = lib(|| q.take_elems());
            let first = lib(|| it.next()).unwrap();
            again(lib(|| VBox::new(first)), &w);
            lib(|| drop(it));
            lib(|| drop(q));
        }
        3 => {
            let b = lib(|| VBox::<Str<L>>::new(init()));
            let mut c = lib(|| VBox::<Str<L>>::new(b.vclone()));
            mutate(mu, c.as_mut().mut_slice());
            same(&b, &w, "source of a clone");
            mutate(mu, &mut w);
            again(c, &w);
            lib(|| drop(b));
        }
        4 => {
            let b = lib(|| VBox::<Str<L>>::new(init()));
            let mut c = lib(|| VBox::<Str<L>>::new(b.vcopy()));
            mutate(mu, c.as_mut().mut_slice());
            same(&b, &w, "source of a copy");
            mutate(mu, &mut w);
            lib(|| drop(b));
            again(c, &w);
        }
        5 => {
            let mut b = lib(|| VBox::<Tup3<FixedLen<u8>, Str<L>, Str<u8>>>::new(tup3::Init(FixedLen(9u8), init(), Str::<u8>::try_copy("nachbar").unwrap())));
            same(b.refs().1, &w, "string in a tuple");
            mutate(mu, b.as_mut().muts().1.mut_slice());
            mutate(mu, &mut w);
            same(b.refs().1, &w, "string in a tuple, changed");
            same(b.refs().2, "nachbar", "next field");
            let c = lib(|| b.clone());
            same(c.refs().1, &w, "string in a cloned tuple");
            let d = lib(|| VBox::<Tup3<FixedLen<u8>, Str<L>, Str<u8>>>::new(b.vcopy()));
            same(d.refs().1, &w, "string in a copied tuple");
            lib(|| drop((b, c)));
            same(d.refs().1, &w, "string in a copied tuple after the source went");
            lib(|| drop(d));
        }
        6 => {
            let mut b = lib(|| VBox::<W<Str<L>>>::new(WInit(init())));
            same(b.inner(), &w, "wrapped string");
            mutate(mu, b.as_mut().inner_mut().mut_slice());
            mutate(mu, &mut w);
            same(b.inner(), &w, "wrapped string, changed");
            lib(|| drop(b));
        }
        7 => {
            // raw and back
            let b = lib(|| VBox::<Str<L>>::new(init()));
            let p = unsafe { b.into_raw() };
            let mut b = unsafe { VBox::<Str<L>>::from_raw(p) };
            mutate(mu, b.as_mut().mut_slice());
            mutate(mu, &mut w);
            again(b, &w);
        }
        8 => {
            // leaked in an arena
            let o = lib(|| Owned::<Str<L>>::new_in(init(), &env.bump));
            let l = o.leak();
            same(&l, &w, "leaked string");
            mutate(mu, l.mut_slice());
        }
        9 => {
            let mut q: Seq<Str<L>> = lib(|| Seq::new());
            for _ in 0..9 {
                lib(|| q.push(init()));
            }
            for e in q.iter_mut() {
                mutate(mu, e.mut_slice());
            }
            mutate(mu, &mut w);
            let mut r: Seq<Str<L>> = lib(|| Seq::new());
            lib(|| r.extend(q.iter().map(|e| e.vcopy())));
            lib(|| r.extend(q.take_elems()));
            gcheck_eq!(CONTENT, r.len(), 18, "strings in the second sequence");
            for e in r.iter() {
                same(e, &w, "string moved to a second sequence");
            }
            lib(|| drop((q, r)));
        }
        10 => {
            // length one beyond and exactly at the prefix: never a part of a string
            let b = lib(|| VBox::<Str<L>>::new(init()));
            gcheck_eq!(CONTENT, (*b).to_string(), w, "to_string");
            gcheck_eq!(CONTENT, b.is_empty(), w.is_empty(), "is_empty");
            let i2 = b.vclone();
            gcheck_eq!(CONTENT, i2.calculate_layout_cautious().is_some(), true, "layout of a clone");
            lib(|| drop(VBox::<Str<L>>::new(i2)));
            let i3 = b.vcopy();
            lib(|| drop(i3));
            same(&b, &w, "after unused copies");
            lib(|| drop(b));
        }
        _ => {
            // a string inside a macro-defined struct
            let v = host(|| vec![vec![1], w.bytes().map(|b| b as u64).collect::<Vec<_>>()]);
            let _ = &v;
            let i = s_str::Init { tag: 5, name: init() };
            let mut b = lib(|| VBox::<SStr<L>>::new(i));
            same(b.refs().name, &w, "string in a macro-defined struct");
            mutate(mu, b.as_mut().muts().name.mut_slice());
            mutate(mu, &mut w);
            same(b.refs().name, &w, "string in a macro-defined struct, changed");
            gcheck_eq!(CONTENT, *b.refs().tag, 5, "other field");
            lib(|| drop(b));
            host(|| drop(v));
        }
    }
    host(|| drop(w));
}
fn all<L: LenN>(v: &mut Vec<Section>, n: usize) {
    v.push(Section {
        name: format!("Str<{}> up to {} characters", L::N, n),
        dev: 0,
        body: Box::new(move || {
            let env = Env::new();
            let mut s = host(String::new);
            for _ in 0..n {
                let c = choose(ALPHA.len() + 1);
                if c == 0 {
                    break;
                }
                host(|| s.push(ALPHA[c - 1]));
            }
            let route = choose(ROUTE);
            let mu = choose(mutations(&s));
            log(|| format!("Str<{}> {:?} route {} mutation {}", L::N, s, route, mu));
            trip::<L>(&s, route, mu, &env);
            let mut h = H::new(route as u64 * 100 + mu as u64);
            h.bytes(s.as_bytes());
            state(h.get(), 0);
            host(|| drop(s));
            drop(env);
        }),
    });
}
/// Byte lengths around the limits of the length types, with a character of every width at the end.
fn limits<L: LenN>(v: &mut Vec<Section>, at: &'static [usize]) {
    v.push(Section {
        name: format!("Str<{}> of {:?} bytes", L::N, at),
        dev: 0,
        body: Box::new(move || {
            let env = Env::new();
            let n = at[choose(at.len())];
            let last = ALPHA[[0, 4, 5, 6][choose(4)]];
            let fill = ALPHA[[0, 4, 5, 6][choose(4)]];
            let s: String = host(|| {
                let mut s = String::new();
                while s.len() + last.len_utf8() < n {
                    s.push(if s.len() + last.len_utf8() + fill.len_utf8() <= n { fill } else { 'x' });
                }
                if s.len() + last.len_utf8() == n {
                    s.push(last);
                }
                s
            });
            log(|| format!("Str<{}> of {} bytes ending in {:?}", L::N, s.len(), last));
            op();
            if s.len() > L::MAX {
                check!(Str::<L>::try_copy(&s).is_none(), "string of {} bytes accepted by {}", s.len(), L::N);
            } else {
                trip::<L>(&s, choose(ROUTE), [0, 1, 2, 3 + 4 * (s.chars().count() / 2), 3 + 4 * s.chars().count() - 2][choose(5)], &env);
            }
            host(|| drop(s));
            drop(env);
        }),
    });
}
/// Str::copy
fn plain(v: &mut Vec<Section>, n: usize) {
    v.push(Section {
        name: format!("Str::copy up to {} characters", n),
        dev: 0,
        body: Box::new(move || {
            let mut s = host(String::new);
            for _ in 0..n {
                let c = choose(ALPHA.len() + 1);
                if c == 0 {
                    break;
                }
                host(|| s.push(ALPHA[c - 1]));
            }
            op();
            let b = lib(|| VBox::<Str>::new(Str::copy(&s)));
            same(&b, &s, "Str::copy");
            let mut q: Seq<Str> = lib(|| Seq::new());
            lib(|| q.extend([Str::copy(&s), Str::copy("z"), Str::copy(&s)]));
            let mut k = 0;
            for e in q.iter() {
                same(e, if k == 1 { "z" } else { &s }, "Str::copy in a sequence");
                k += 1;
            }
            lib(|| drop((q, b)));
            host(|| drop(s));
        }),
    });
}
/// What safe code can ask for: the bytes behind a string (mutably), or a string from bytes.
const PRELUDE: &str = r#"
#![allow(unused, dead_code)]
extern crate varlen; extern crate bumpalo;
use varlen::prelude::*;
use varlen::array::*; use varlen::array_init::*; use varlen::newtype::*; use varlen::{VClone, VCopy, Initializer, FixedLen, Layout as _};
use varlen::seq::{Seq, CheckedIndexing};
use std::pin::Pin; use std::borrow::*; use std::ops::*; use std::convert::*; use std::str::FromStr; use std::mem::MaybeUninit;
#[define_varlen]
pub struct MS<L: ArrayLen = usize> { pub x: u32, #[varlen] pub s: Str<L> }
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NW<(L: ArrayLen = usize)>(Str<L>);
    with signature: impl<(L: ArrayLen)> NW<(L)> { _ }
    with init: pub struct NWInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
"#;
fn clients() -> Vec<Client> {
    let mut v = vec![];
    let mut put = |accept: bool, l: &str, body: String| {
        let text = format!("const _: () = {{ type L = {}; type S = Str<L>; type A = Array<u8, L>; {} }};", l, body);
        v.push(Client { accept, text })
    };
    // ways to a pinned string, to a shared one, and to the owners themselves
    let places: [(&str, &str); 9] = [
        ("p: Pin<&mut S>", "p"),
        ("mut b: VBox<S>", "b.as_mut()"),
        ("mut o: Owned<'_, S>", "o.as_mut()"),
        ("o: Owned<'_, S>", "o.leak()"),
        ("mut q: Seq<S>", "q.iter_mut().next().unwrap()"),
        ("mut q: Seq<S, CheckedIndexing>", "q.from_offset_mut(0)"),
        ("mut t: VBox<Tup2<FixedLen<u8>, S>>", "t.as_mut().muts().1"),
        ("mut m: VBox<MS<L>>", "m.as_mut().muts().s"),
        ("mut w: VBox<NW<L>>", "w.as_mut().inner_mut()"),
    ];
    let shared: [(&str, &str); 6] = [
        ("p: &S", "p"),
        ("b: VBox<S>", "(&*b)"),
        ("q: Seq<S>", "q.iter().next().unwrap()"),
        ("q: Seq<S, CheckedIndexing>", "q.from_offset(0)"),
        ("t: VBox<Tup2<FixedLen<u8>, S>>", "t.refs().1"),
        ("w: VBox<NW<L>>", "w.inner()"),
    ];
    let names = [
        "inner_mut", "array_mut", "as_array_mut", "mut_array", "as_mut_array", "as_bytes_mut", "bytes_mut", "as_mut_bytes", "mut_bytes", "mut_slice", "as_mut_slice",
        "as_slice_mut", "slice_mut", "inner", "into_inner", "as_mut", "get_mut", "deref_mut", "borrow_mut", "as_mut_ptr", "as_ref", "to_array", "into_array", "array", "bytes", "as_array",
    ];
    for l in ["u8", "u16", "usize"] {
        for (arg, p) in places {
            put(true, l, format!("fn f({}) {{ let m: &mut str = {}.mut_slice(); m.make_ascii_uppercase(); }}", arg, p));
            put(true, l, format!("fn f({}) {{ let (a, b) = {}.mut_slice().split_at_mut(1); a.make_ascii_lowercase(); }}", arg, p));
            put(true, l, format!("fn f({}) {{ let r: &S = {}.into_ref().get_ref(); let s: &str = r; let b: &[u8] = r.as_bytes(); }}", arg, p));
            put(false, l, format!("fn f({}) {{ {}.mut_slice()[0] = 255; }}", arg, p));
            put(false, l, format!("fn f({}) {{ {}[0] = 255; }}", arg, p));
            put(false, l, format!("fn f({}) {{ let m: &mut [u8] = {}.mut_slice().as_bytes_mut(); }}", arg, p));
            put(false, l, format!("fn f({}) {{ let m: &mut [u8] = {}; }}", arg, p));
            put(false, l, format!("fn f({}) {{ let m: &mut A = &mut {}.0; }}", arg, p));
            put(false, l, format!("fn f({}) {{ let m: &mut S = &mut *{}; }}", arg, p));
            put(false, l, format!("fn f({}) {{ let m: &mut [u8] = AsMut::<[u8]>::as_mut({}.get_mut()); }}", arg, p));
            for n in names {
                put(false, l, format!("fn f({}) {{ let m: &mut [u8] = {}.{}(); }}", arg, p, n));
                put(false, l, format!("fn f({}) {{ let m: Pin<&mut A> = {}.{}(); }}", arg, p, n));
                put(false, l, format!("fn f({}) {{ let m: &mut A = {}.{}(); }}", arg, p, n));
                put(false, l, format!("fn f({}) {{ {}.{}().mut_slice()[0] = 255; }}", arg, p, n));
                put(false, l, format!("fn f({}) {{ {}.{}()[0] = 255; }}", arg, p, n));
            }
        }
        for (arg, p) in shared {
            put(true, l, format!("fn f({}) {{ let s: &str = {}; }}", arg, p));
            for n in names {
                put(false, l, format!("fn f({}) {{ let m: &mut [u8] = {}.{}(); }}", arg, p, n));
                put(false, l, format!("fn f({}) {{ let m: &mut str = {}.{}(); }}", arg, p, n));
                put(false, l, format!("fn f({}) {{ {}.{}()[0] = 255; }}", arg, p, n));
            }
            put(false, l, format!("fn f({}) {{ {}.0.len = 1; }}", arg, p));
            put(false, l, format!("fn f({}) -> S {{ *{} }}", arg, p));
        }
        // building
        let good = ["Str::<L>::try_copy(\"ab\").unwrap()", "sb.vclone()", "sb.vcopy()", "sb", "so"];
        let bytes = [
            "SizedInit(2 as L, CopyFrom(&[255u8, 254][..]))", "SizedInit(2 as L, CloneFrom(&[255u8, 254][..]))", "SizedInit(2 as L, MoveFrom([255u8, 254]))",
            "SizedInit(2 as L, FillSequentially(|i| 254u8 + i as u8))", "SizedInit(2 as L, FromIterPrefix([255u8, 254].into_iter()))", "SizedInit(2 as L, FillWithDefault)",
            "A::try_copy(&[255u8, 254]).unwrap()", "A::try_clone_from_slice(&[255u8, 254]).unwrap()", "ab.vclone()", "ab.vcopy()", "ab", "ao",
        ];
        let env = "sb: VBox<S>, so: Owned<'_, S>, ab: VBox<A>, ao: Owned<'_, A>, bump: &bumpalo::Bump, mut q: Seq<S>, mut qc: Seq<S, CheckedIndexing>";
        let dests = [
            "let d: VBox<S> = VBox::new(I);", "let d: Owned<'_, S> = Owned::new_in(I, bump);", "q.push(I);", "qc.push(I);", "q.extend([I]);",
            "let d: VBox<Tup2<FixedLen<u8>, S>> = VBox::new(tup2::Init(FixedLen(1), I));", "let d: VBox<MS<L>> = VBox::new(ms::Init { x: 1, s: I });", "let d: VBox<NW<L>> = VBox::new(NWInit(I));",
        ];
        for d in dests {
            let fill = |i: &str| d.replace("tup2::Init", "tup2::#").replace("ms::Init", "ms::#").replace("NWInit", "NW#").replace('I', i).replace('#', "Init");
            for i in good {
                put(true, l, format!("fn f({}) {{ {} }}", env, fill(i)));
            }
            for i in bytes {
                put(false, l, format!("fn f({}) {{ {} }}", env, fill(i)));
                for w in ["varlen::str::StrInit(I)", "varlen::str::StrCloner(I)", "varlen::str::StrCopier(I)", "varlen::array::ArrayCloner(I)", "varlen::str::StrCloner(varlen::str::StrInit(I))", "Str(I)", "I.into()", "varlen::VCopier(&I)", "NWInit(I)"] {
                    put(false, l, format!("fn f({}) {{ {} }}", env, fill(&w.replace("StrInit", "Str#").replace("NWInit", "NW#").replace('I', i).replace('#', "Init"))));
                }
            }
            for i in [
                "Str::<L>::try_copy(&[255u8, 254]).unwrap()", "Str::<L>::try_copy(&[255u8, 254][..]).unwrap()", "Str::<L>::copy(&[255u8][..])", "Str::<L>::clone_from_slice(&[255u8]).unwrap()", "\"ab\"", "&[255u8][..]", "vec![255u8]",
                "String::new()", "FixedLen(255u8)", "FixedLen([255u8; 2])", "Str::<u32>::try_copy(\"ab\").unwrap()", "Default::default()", "FillWithDefault", "CopyFrom(&[255u8][..])", "S::from(&[255u8][..])", "S::from(ab)", "S::try_from(ab).unwrap()", "S::from_str(\"ab\").unwrap()",
                "Str::<L>::from_utf8_unchecked(&[255u8])", "Str::<L>::new_unchecked(&[255u8])", "Str::<L>::from_bytes(&[255u8])", "std::str::from_utf8_unchecked(&[255u8])", "Str::<L>::try_copy(std::str::from_utf8_unchecked(&[255u8])).unwrap()",
            ] {
                put(false, l, format!("fn f({}) {{ {} }}", env, fill(i)));
            }
        }
        for (from, to) in [("VBox<A>", "VBox<S>"), ("&'static A", "&'static S"), ("Pin<&'static mut A>", "Pin<&'static mut S>"), ("Owned<'static, A>", "Owned<'static, S>"), ("Seq<A>", "Seq<S>"), ("VBox<Str<u32>>", "VBox<S>"), ("VBox<NW<u32>>", "VBox<S>"), ("VBox<S>", "VBox<NW<L>>")] {
            for e in ["x", "x.into()", "x.try_into().ok().unwrap()", "From::from(x)", "x.as_ref()", "x.borrow()", "x as T", "VBox::from(x)", "*x", "x.inner()", "x.0"] {
                put(false, l, format!("type T = {}; fn f(x: {}) -> T {{ {} }}", to, from, e));
            }
        }
        // initializers of one's own need `unsafe`
        put(false, l, "struct I; impl Initializer<S> for I { fn calculate_layout_cautious(&self) -> Option<<S as VarLen>::Layout> { None } unsafe fn initialize(self, d: std::ptr::NonNull<S>, l: <S as VarLen>::Layout) {} }".into());
        put(true, l, "struct I; unsafe impl Initializer<S> for I { fn calculate_layout_cautious(&self) -> Option<<S as VarLen>::Layout> { None } unsafe fn initialize(self, d: std::ptr::NonNull<S>, l: <S as VarLen>::Layout) {} }".into());
        put(false, l, "struct I<X>(X); impl_initializer_as_newtype! { impl<(X: Initializer<A>)> Initializer<S> for I<X> { _ } }".into());
        put(true, l, "struct I<X>(X); impl_initializer_as_newtype! { impl<(X: Initializer<S>)> Initializer<S> for I<X> { _ } }".into());
    }
    // one text may be reached twice
    let mut seen = std::collections::HashSet::new();
    v.retain(|c| seen.insert(c.text.clone()));
    v
}
fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    let n = t.pick(4, 5);
    all::<u8>(&mut v, n);
    all::<u16>(&mut v, n - 1);
    all::<u32>(&mut v, n - 1);
    all::<u64>(&mut v, n - 1);
    all::<usize>(&mut v, n - 1);
    limits::<u8>(&mut v, &[63, 64, 65, 127, 128, 129, 252, 253, 254, 255, 256, 257, 258, 259, 511, 512, 65535, 65536]);
    limits::<u16>(&mut v, &[127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 65539, 131072]);
    limits::<u32>(&mut v, &[255, 256, 65535, 65536, 65540, (1 << 20) + 5]);
    limits::<u64>(&mut v, &[255, 256, 65535, 65536]);
    limits::<usize>(&mut v, &[255, 256, 65535, 65536, 70000]);
    plain(&mut v, t.pick(4, 6));
    v.push(mc::clients::section("what safe code can ask of a string", "c11", PRELUDE.into(), clients()));
    v
}
fn main() {
    set_mask(CONTENT | UTF8);
    mc::driver::main(
        Meta {
            id: "C11",
            level: "model_checking",
            rule: "every string over the alphabet up to the length x every route of building and handing it over x every prefix/suffix case mutation, in lockstep with String; plus byte lengths at the limits of each length type with every character width at the end; plus, for every way to reach a string x every way to ask for its bytes mutably, and every way to build a string x every source of bytes, the compiler's verdict on the safe client program",
            bounds: "8 characters of 1..4 bytes incl. NUL, DEL and the last code point; up to 4 characters for u8 lengths, 3 for the others (5 and 4 thorough); 12 routes; up to 1048581 bytes".into(),
            assumptions: &["rustc's verdicts are right", "safe code that reaches the bytes by a name outside the listed ones is not seen"],
        },
        secs,
    );
}
