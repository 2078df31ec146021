//! Product tables: constructs x types with the verdict the rules of the library demand. Every construct that
//! must be rejected has a twin that differs only in the offending spot and must compile.
use super::*;

struct Tab<'v> {
    sec: &'static str,
    v: &'v mut Vec<Prog>,
    n: usize,
}
impl Tab<'_> {
    fn put(&mut self, want: Verdict, body: &str) {
        self.v.push(Prog { sec: self.sec.into(), text: format!("const _: () = {{ {} }};", body), want });
    }
    fn ok(&mut self, body: impl AsRef<str>) {
        self.put(Verdict::Accept, body.as_ref())
    }
    fn no(&mut self, body: impl AsRef<str>) {
        self.put(Verdict::Reject, body.as_ref())
    }
    fn if_(&mut self, c: bool, body: impl AsRef<str>) {
        if c { self.ok(body) } else { self.no(body) }
    }
    /// items in a module of their own (the struct macro makes sibling modules)
    fn item(&mut self, want: Verdict, body: &str) {
        self.n += 1;
        self.v.push(Prog { sec: self.sec.into(), text: format!("mod {}{} {{ use super::*; {} }}", self.sec.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), self.n, body), want });
    }
}
fn tab<'v>(v: &'v mut Vec<Prog>, sec: &'static str) -> Tab<'v> {
    Tab { sec, v, n: 0 }
}

pub fn all(_t: Tier, v: &mut Vec<Prog>) {
    separation(v);
    definitions(v);
    unsafe_needed(v);
    controllers(v);
    lengths(v);
    borrowing_signatures(v);
    exclusivity(v);
    variance(v);
    dropck(v);
    threads(v);
}

const TAILED: [&str; 12] = [
    "TT", "TA", "TS", "MS", "NW", "Str", "Array<String>", "Tup3<Str, FixedLen<u8>, Array<u8, u8>>", "Tup4<Str, Str, Str, Str>", "G<u8>", "GW<u8>", "Tup2<FixedLen<u8>, FixedLen<u8>>",
];
const FLAT: [&str; 3] = ["FixedLen<u64>", "FixedLen<String>", "Plain"];

fn separation(v: &mut Vec<Prog>) {
    let mut t = tab(v, "header and tail cannot be separated");
    let acts = [
        "fn p(a: Pin<&mut T>, b: Pin<&mut T>) { std::mem::swap(a.get_mut(), b.get_mut()); }",
        "fn p(mut a: Pin<&mut T>, mut b: Pin<&mut T>) { std::mem::swap(&mut *a, &mut *b); }",
        "fn p(a: Pin<&mut T>, b: Pin<&mut T>) { std::mem::swap(Pin::into_inner(a), Pin::into_inner(b)); }",
        "fn p<'x>(a: &'x mut T) -> Pin<&'x mut T> { Pin::new(a) }",
        "fn p(mut a: VBox<T>, mut b: VBox<T>) { std::mem::swap(a.as_mut().get_mut(), b.as_mut().get_mut()); }",
        "fn p(mut a: VBox<T>, mut b: Seq<T>) { std::mem::swap(a.as_mut().get_mut(), b.iter_mut().next().unwrap().get_mut()); }",
        "fn p(mut a: Owned<'_, T>, mut b: Seq<T, CheckedIndexing>) { std::mem::swap(a.as_mut().get_mut(), b.from_offset_mut(0).get_mut()); }",
        "fn p(mut a: Tup2<T, T>) {} fn q(mut b: VBox<Tup2<T, T>>) { let m = b.as_mut().muts(); std::mem::swap(m.0.get_mut(), m.1.get_mut()); }",
        "fn u<X: Unpin>() {} fn p() { u::<T>() }",
    ];
    for a in acts {
        for ty in TAILED.iter().chain(&FLAT) {
            t.if_(FLAT.contains(ty), format!("type T = {}; {}", ty, a));
        }
    }
    // nothing hands out a plain mutable reference, nor an object by value
    let never = [
        "fn p(a: &T) -> T { *a }",
        "fn p(a: VBox<T>) -> T { *a }",
        "fn p(a: Owned<'_, T>) -> T { *a }",
        "fn p(a: Pin<&mut T>) -> T { *a }",
        "fn p(mut a: VBox<T>) { let r: &mut T = &mut *a; }",
        "fn p(mut a: Owned<'_, T>) { let r: &mut T = &mut *a; }",
        "fn p(mut a: VBox<T>) { let r: &mut T = a.as_mut(); }",
        "fn p(mut a: Seq<T>) { let r: &mut T = a.iter_mut().next().unwrap(); }",
        "fn p(mut a: Seq<T>) { let r: T = a.take_elems().next().unwrap(); }",
        "fn p(a: &T) -> T { T::clone(a) }",
        "fn p(a: &T) -> T { a.to_owned() }",
        "fn p() -> T { T::default() }",
        "fn p(a: VBox<T>) -> Box<T> { Box::new(*a) }",
        "fn p(a: VBox<T>) -> Box<T> { a.into() }",
        "fn p(a: &T) { let b = VBox::<T>::new(*a); }",
        "fn c<X: Copy>() {} fn p() { c::<T>() }",
        "fn c<X: Clone>() {} fn p() { c::<T>() }",
        "fn c<X: Default>() {} fn p() { c::<T>() }",
        "fn p(a: &T, b: &T) { let mut r = a; *r = *b; }",
        "fn p(mut a: VBox<T>, b: VBox<T>) { *a = *b; }",
        "fn p(mut a: VBox<T>) { std::mem::take(&mut *a); }",
    ];
    for a in never {
        for ty in TAILED {
            t.no(format!("type T = {}; {}", ty, a));
        }
    }
    for ty in TAILED.iter().chain(&FLAT) {
        t.ok(format!("type T = {}; fn p(a: &T) -> &T {{ a }}", ty));
        t.ok(format!("type T = {}; fn p(a: VBox<T>) -> VBox<T> {{ a }}", ty));
        t.ok(format!("type T = {}; fn p<'x>(a: Owned<'x, T>) -> Owned<'x, T> {{ a }}", ty));
        t.ok(format!("type T = {}; fn p<'x>(a: Pin<&'x mut T>) -> Pin<&'x mut T> {{ a }}", ty));
        t.ok(format!("type T = {}; fn p(mut a: VBox<T>) {{ let r: Pin<&mut T> = a.as_mut(); }}", ty));
        t.ok(format!("type T = {}; fn p(mut a: Seq<T>) {{ let r: Pin<&mut T> = a.iter_mut().next().unwrap(); }}", ty));
        t.ok(format!("type T = {}; fn p(mut a: Seq<T>) {{ let r: Owned<'_, T> = a.take_elems().next().unwrap(); }}", ty));
        t.ok(format!("type T = {}; fn p(mut a: VBox<T>, mut b: VBox<T>) {{ std::mem::swap(&mut a, &mut b); }}", ty));
    }
    // the parts of a header
    t.no("fn p(b: &MS) { let m = b.arr; }");
    t.no("fn p(b: &MS) { let m = b.s; }");
    t.ok("fn p(b: &MS) { let m = &b.arr; let n = b.n; let x = b.x; }");
    t.no("fn p(b: &TT) { let m = b.0; }");
    t.ok("fn p(b: &TT) { let m = &b.0; }");
    t.no("fn p(b: VBox<MS>) { let m = MS { x: 4, ..*b }; }");
    t.no("fn p(b: &MS) { let m = MS { n: 1, x: 4, arr: b.arr, s: b.s }; }");
    t.no("fn p(b: &MS) { let m = MS { n: 1, x: 4, arr: b.arr.clone(), s: b.s.clone() }; }");
    t.no("fn p() { let m = MS { n: 1, x: 4, arr: Default::default(), s: Default::default() }; }");
    t.no("fn p() { let m = MS { n: 1, x: 4, arr: varlen::marker::ArrayMarker::new_unchecked(), s: varlen::marker::FieldMarker::new_unchecked() }; }");
    t.ok("fn p() { let m = unsafe { MS { n: 1, x: 4, arr: varlen::marker::ArrayMarker::new_unchecked(), s: varlen::marker::FieldMarker::new_unchecked() } }; }");
    t.no("fn p() { let m: varlen::marker::ArrayMarker<u8> = varlen::marker::ArrayMarker(std::marker::PhantomPinned, std::marker::PhantomData); }");
    t.no("fn p() { let m: varlen::marker::FieldMarker<u8> = varlen::marker::FieldMarker(std::marker::PhantomPinned, std::marker::PhantomData); }");
    for m in ["ArrayMarker", "FieldMarker"] {
        for tr in ["Unpin", "Copy", "Clone", "Default"] {
            t.no(format!("fn c<X: {}>() {{}} fn p() {{ c::<varlen::marker::{}<u8>>() }}", tr, m));
        }
        t.ok(format!("fn c<X>() {{}} fn p() {{ c::<varlen::marker::{}<u8>>() }}", m));
        t.no(format!("fn p(m: &mut varlen::marker::{}<u8>) {{ let o = std::mem::take(m); }}", m));
    }
    t.no("fn p() { let a = Array::<u8, u8> { len: 3, _array: any() }; }");
    t.no("fn p(a: &Array<u8, u8>) { let l = a.len; }");
    t.ok("fn p(a: &Array<u8, u8>) { let l = a.len(); let s = a.len_short(); }");
    t.no("fn p(a: Pin<&mut Array<u8, u8>>) { a.len = 3; }");
    // an object that fell out of unsafe code: wrappers of one cannot be had
    for ty in TAILED {
        t.no(format!("type T = {}; fn p(b: VBox<T>) {{ let VBox(p) = b; }}", ty));
    }
    t.no("fn p(s: VBox<Str>) { let r: Pin<&mut Array<u8>> = s.as_mut().inner_mut(); }");
    t.no("fn p(s: Pin<&mut Str>) { let r: Pin<&mut Array<u8>> = s.inner_mut(); }");
    t.no("fn p(s: Pin<&mut Str>) { let r: &mut [u8] = s.mut_slice(); }");
    t.ok("fn p(s: Pin<&mut Str>) { let r: &mut str = s.mut_slice(); }");
    t.no("fn p(s: Pin<&mut Str>) { let r: &mut [u8] = s.mut_slice().as_bytes_mut(); }");
    t.ok("fn p(s: Pin<&mut Str>) { let r: &mut [u8] = unsafe { s.mut_slice().as_bytes_mut() }; }");
    t.no("fn p() { let s: VBox<Str> = VBox::new(varlen::str::StrInit(Array::copy(&[255u8]))); }");
    t.no("fn p() { let s: VBox<Str> = VBox::new(Array::copy(&[255u8])); }");
    t.ok("fn p() { let s: VBox<Array<u8>> = VBox::new(Array::copy(&[255u8])); }");
    t.no("fn p() { let s: VBox<Str> = VBox::new(Str(Array::copy(&[255u8]))); }");
    t.no("fn p() { let s: VBox<Str> = VBox::new(SizedInit(1usize, FillWithDefault)); }");
    t.no("fn p() { let s: VBox<Str> = VBox::new(Str::copy(b\"ab\")); }");
    t.ok("fn p() { let s: VBox<Str> = VBox::new(Str::copy(\"ab\")); }");
    t.no("fn p(s: Seq<TT>) { let r = Seq::<TT> { ..s }; }");
    t.no("fn p(mut s: Seq<TT>) { s.len = 7; }");
    t.no("fn p(mut s: Seq<TT>) { s.clone(); }");
    // owners are not duplicable
    for o in ["VBox<Array<String>>", "Seq<TT>", "Owned<'static, TT>", "OwnedElems<'static, TT>", "IterMut<'static, TT>", "tup2::Muts<'static, FixedLen<u16>, Array<u16, u8>>", "ms::Muts<'static>"] {
        t.no(format!("fn c<X: Copy>() {{}} fn p() {{ c::<{}>() }}", o));
        t.ok(format!("fn c<X>() {{}} fn p() {{ c::<{}>() }}", o));
    }
    for o in ["Seq<TT>", "Owned<'static, TT>", "OwnedElems<'static, TT>", "IterMut<'static, TT>", "tup2::Muts<'static, FixedLen<u16>, Array<u16, u8>>", "ms::Muts<'static>"] {
        t.no(format!("fn c<X: Clone>() {{}} fn p() {{ c::<{}>() }}", o));
    }
    t.ok("fn c<X: Clone>() {} fn p() { c::<VBox<TS>>() }");
    t.no("fn c<X: Clone>() {} struct NC; fn p() { c::<VBox<Array<NC>>>() }");
    // cloning and copying need the contents to be cloneable and copyable
    for (ty, clone, copy) in [("Array<u8>", true, true), ("Array<String>", true, false), ("Array<NC>", false, false), ("FixedLen<u8>", true, true), ("FixedLen<String>", true, false), ("FixedLen<NC>", false, false),
        ("Tup2<FixedLen<u8>, Str>", true, true), ("Tup2<FixedLen<String>, Str>", true, false), ("Tup2<Str, FixedLen<NC>>", false, false), ("Tup3<Str, Array<u8>, Array<String>>", true, false), ("Str", true, true), ("Str<u8>", true, true),
        ("Array<&'static mut u8>", false, false), ("Array<Cell<u8>>", true, false), ("FixedLen<Box<u8>>", true, false), ("Tup2<Array<Box<u8>>, Array<Box<u8>>>", true, false)] {
        t.if_(clone, format!("struct NC; fn p(b: &VBox<{}>) {{ let c = b.vclone(); }}", ty));
        t.if_(copy, format!("struct NC; fn p(b: &VBox<{}>) {{ let c = b.vcopy(); }}", ty));
        t.if_(clone, format!("struct NC; fn p(b: &VBox<{}>) {{ let c: VBox<_> = VBox::clone(b); }}", ty));
    }
    for (init, el, ok) in [("CopyFrom", "u8", true), ("CopyFrom", "String", false), ("CloneFrom", "String", true), ("CloneFrom", "NC", false), ("CloneFrom", "u8", true), ("CopyFrom", "Cell<u8>", false), ("CopyFrom", "&'static u8", true), ("CopyFrom", "&'static mut u8", false)] {
        t.if_(ok, format!("struct NC; fn p(x: &[{}]) {{ let b: VBox<Array<{}>> = VBox::new(SizedInit(x.len(), {}(x))); }}", el, el, init));
    }
    t.no("struct NC; fn p() { let b: VBox<Array<NC>> = VBox::new(SizedInit(1usize, FillWithDefault)); }");
    t.ok("#[derive(Default)] struct NC; fn p() { let b: VBox<Array<NC>> = VBox::new(SizedInit(1usize, FillWithDefault)); }");
    // an initializer that owns something is used once
    for i in ["FixedLen(String::new())", "VBox::<TS>::new(init_ts())", "Str::copy(\"ab\")"] {
        t.no(format!("fn u(x: impl Sized) {{}} fn p() {{ let i = {}; u(i); u(i); }}", i));
        t.ok(format!("fn u(x: impl Sized) {{}} fn p() {{ let i = {}; u(i); }}", i));
    }
    // lengths are exact types
    t.no("fn p() { let b: VBox<Array<u8, u8>> = VBox::new(SizedInit(3usize, FillWithDefault)); }");
    t.ok("fn p() { let b: VBox<Array<u8, u8>> = VBox::new(SizedInit(3u8, FillWithDefault)); }");
    t.no("fn p() { let b: VBox<Array<u8, i8>> = any(); }");
    t.no("fn p() { let b: VBox<Array<u8>> = VBox::new(Array::copy(&[1u16])); }");
    t.no("fn p(s: &Seq<TS>) { s.from_offset(0); }");
    t.ok("fn p(s: &Seq<TS>) { unsafe { s.from_offset_unchecked(0); } }");
    t.no("fn p(s: &Seq<TS>) { s.is_offset_valid(0); }");
    t.no("fn p(s: &Seq<TS, UncheckedIndexing>, o: &mut Seq<TS, CheckedIndexing>) { *o = *s; }");
}

fn definitions(v: &mut Vec<Prog>) {
    let mut t = tab(v, "what a type definition may add");
    use Verdict::*;
    let tailed = [
        ("#[controls_layout] n: u8, #[varlen_array] a: [u8; *n as usize]", "", ""),
        ("x: u16, #[varlen] a: Str", "", ""),
        ("#[controls_layout] n: u8, #[varlen] s: Array<u16>, #[varlen_array] a: [u32; *n as usize]", "", ""),
        ("#[controls_layout] n: u8, #[varlen_array] a: [X; *n as usize]", "<X = u8>", "<X>"),
        ("#[varlen] a: Array<X>", "<X = u8>", "<X>"),
    ];
    for (f, g, ga) in tailed {
        let def = |attr: &str| format!("#[define_varlen] {} pub struct Q{} {{ {} }}", attr, g, f);
        let im = |tr: &str, body: &str| format!("{} impl{} {} for Q{} {{ {} }}", def(""), ga, tr, ga, body);
        t.item(Accept, &def(""));
        t.item(Accept, &def("#[repr(C)]"));
        t.item(Accept, &im("ToString2", "").replace("impl", "pub trait ToString2 {} impl"));
        t.item(Reject, &im("Unpin", ""));
        t.item(Reject, &im("Drop", "fn drop(&mut self) {}"));
        t.item(Reject, &im("Copy", ""));
        t.item(Reject, &def("#[derive(Clone)]"));
        t.item(Reject, &def("#[derive(Clone, Copy)]"));
        t.item(Reject, &def("#[derive(Default)]"));
        if f.contains("u16,") {
            t.item(Reject, &def("#[repr(packed)]"));
        }
        // an `Unpin` impl under any excuse
        t.item(Reject, &format!("{} impl{} Unpin for Q{} where u8: Copy {{}}", def(""), ga, ga));
        t.item(Reject, &format!("{} struct Z<'a>(&'a ()); impl<'a, {}> Unpin for Q{} where Z<'a>: Unpin {{}}", def(""), ga.trim_matches(|c| c == '<' || c == '>'), ga));
        // inside its own module nothing is private: the markers still protect the object
        let q = format!("Q{}", ga);
        let gg = ga;
        t.item(Reject, &format!("{} fn p{}(a: Pin<&mut {}>, b: Pin<&mut {}>) {{ std::mem::swap(a.get_mut(), b.get_mut()); }}", def(""), gg, q, q));
        t.item(Accept, &format!("{} fn p{}(a: Pin<&mut {}>, b: Pin<&mut {}>) {{ std::mem::swap(unsafe {{ a.get_unchecked_mut() }}, unsafe {{ b.get_unchecked_mut() }}); }}", def(""), gg, q, q));
        t.item(Reject, &format!("{} fn p{}(a: &{}) {{ let m = a.a; }}", def(""), gg, q));
    }
    let nt = |attr: &str, vis: &str| format!("define_varlen_newtype! {{ #[repr(transparent)] {} pub struct Q({}Array<u16, u8>); with init: struct QInit<_>(_); with inner_ref: fn qr(&self) -> &_; with inner_mut: fn qm(self: _) -> _; }}", attr, vis);
    t.item(Accept, &nt("", ""));
    t.item(Accept, &nt("", "pub "));
    t.item(Reject, &(nt("", "") + " impl Unpin for Q {}"));
    t.item(Reject, &(nt("", "") + " impl Unpin for Q where u8: Copy {}"));
    t.item(Reject, &(nt("", "") + " impl Copy for Q {}"));
    t.item(Reject, &nt("#[derive(Clone)]", ""));
    t.item(Reject, &nt("#[derive(Clone, Copy)]", ""));
    t.item(Reject, &nt("#[derive(Default)]", ""));
    t.item(Accept, &(nt("", "") + " fn p(a: &Q) -> &Array<u16, u8> { a.qr() } fn q(a: Pin<&mut Q>) -> Pin<&mut Array<u16, u8>> { a.qm() } fn r() -> VBox<Q> { VBox::new(QInit(SizedInit(2u8, FillWithDefault))) }"));
    t.item(Reject, &(nt("", "") + " fn p(a: &Q) -> Array<u16, u8> { a.0 }"));
    t.item(Reject, &(nt("", "") + " fn r() -> VBox<Q> { VBox::new(SizedInit(2u8, FillWithDefault)) }"));
    t.item(Reject, &(nt("", "") + " fn r() -> VBox<Q> { VBox::new(QInit(SizedInit(2u16, FillWithDefault))) }"));
    t.item(Reject, &(nt("", "") + " fn q(a: Pin<&mut Q>) -> &mut Array<u16, u8> { &mut a.get_mut().0 }"));
    // private views and initializers stay private
    let m = |s: &str| format!("mod inner {{ use super::*; {} }} use inner::*; ", s);
    let ntp = |iv: &str, fv: &str, rv: &str, mv: &str| format!("define_varlen_newtype! {{ #[repr(transparent)] pub struct Q(Array<u16, u8>); with init: {}struct QInit<_>({}_); with inner_ref: {}fn qr(&self) -> &_; with inner_mut: {}fn qm(self: _) -> _; }}", iv, fv, rv, mv);
    for k in 0..16 {
        let p = |b: usize| if k >> b & 1 == 1 { "pub " } else { "" };
        let d = m(&ntp(p(0), p(1), p(2), p(3)));
        t.item(if k & 3 == 3 { Accept } else { Reject }, &format!("{} fn r() -> VBox<Q> {{ VBox::new(QInit(SizedInit(2u8, FillWithDefault))) }}", d));
        t.item(if k & 4 != 0 { Accept } else { Reject }, &format!("{} fn r(q: &Q) -> &Array<u16, u8> {{ q.qr() }}", d));
        t.item(if k & 8 != 0 { Accept } else { Reject }, &format!("{} fn r(q: Pin<&mut Q>) -> Pin<&mut Array<u16, u8>> {{ q.qm() }}", d));
        t.item(Reject, &format!("{} fn r(q: &Q) -> &Array<u16, u8> {{ &q.0 }}", d));
    }
    // visibility of fields of a struct, from another module
    for vis in ["", "pub ", "pub(super) ", "pub(crate) "] {
        let d = m(&format!("#[define_varlen] pub struct Q {{ #[controls_layout] {v}n: u8, {v}x: u16, #[varlen_array] {v}a: [u8; *n as usize], #[varlen] {v}s: Str }}", v = vis));
        let w = if vis.is_empty() { Reject } else { Accept };
        for f in ["n", "x", "a", "s"] {
            t.item(w, &format!("{} fn r(q: &Q) {{ let r = q.refs().{}; }}", d, f));
            t.item(w, &format!("{} fn r(q: Pin<&mut Q>) {{ let r = q.muts().{}; }}", d, f));
            t.item(w, &format!("{} fn r(q: &Q) {{ let r = &q.{}; }}", d, f));
        }
        t.item(w, &format!("{} fn r(q: Pin<&mut Q>) {{ let _ = q.try_set_layout_controllers(inner::q::LayoutControllers {{ n: 2 }}); }}", d));
        t.item(w, &format!("{} fn r() -> VBox<Q> {{ VBox::new(inner::q::Init {{ n: 2, x: 1, a: FillWithDefault, s: Str::copy(\"x\") }}) }}", d));
    }
    // unsupported or ill-formed definitions
    for bad in ["pub struct Q(u8);", "pub enum Q { A, B }", "pub union Q { a: u8, b: u16 }", "pub struct Q { #[varlen_array] x: u8 }", "pub struct Q { #[varlen_array] #[controls_layout] x: [u8; 4] }", "pub struct Q { #[varlen] x: u8 }", "pub struct Q { x: u8, x: u8 }", "pub struct Q { #[varlen_array] x: [[u8]; 4] }", "pub struct Q { x: [u8] }", "pub fn q() {}"] {
        t.item(Reject, &format!("#[define_varlen] {}", bad));
    }
    for good in ["pub struct Q { x: u8 }", "pub struct Q { #[varlen_array] x: [u8; 4] }", "pub struct Q { #[varlen] x: FixedLen<u8> }", "pub struct Q { x: [u8; 4] }", "pub struct Q { #[varlen] x: Array<u8>, y: u8 }", "pub(crate) struct Q { #[varlen] x: Array<u8>, y: u8 }", "struct Q { #[varlen] x: Array<u8>, y: String }"] {
        t.item(Accept, &format!("#[define_varlen] {}", good));
    }
    // an initializer must fit the fields
    let d = "#[define_varlen] pub struct Q { #[controls_layout] n: u8, x: u16, #[varlen_array] a: [u8; *n as usize], #[varlen] s: Array<u32> }";
    let i = |n: &str, x: &str, a: &str, s: &str| format!("{} fn r() -> VBox<Q> {{ VBox::new(q::Init {{ n: {}, x: {}, a: {}, s: {} }}) }}", d, n, x, a, s);
    t.item(Accept, &i("2", "1", "FillWithDefault", "SizedInit(1usize, FillWithDefault)"));
    t.item(Accept, &i("2", "1", "MoveFrom([1, 2])", "Array::copy(&[1u32])"));
    t.item(Reject, &i("2u16", "1", "FillWithDefault", "SizedInit(1usize, FillWithDefault)"));
    t.item(Reject, &i("2", "1u8", "FillWithDefault", "SizedInit(1usize, FillWithDefault)"));
    t.item(Reject, &i("2", "1", "MoveFrom([1u16, 2])", "SizedInit(1usize, FillWithDefault)"));
    t.item(Reject, &i("2", "1", "SizedInit(1usize, FillWithDefault)", "SizedInit(1usize, FillWithDefault)"));
    t.item(Reject, &i("2", "1", "FillWithDefault", "FillWithDefault"));
    t.item(Reject, &i("2", "1", "FillWithDefault", "SizedInit(1u8, FillWithDefault)"));
    t.item(Reject, &i("2", "1", "FillWithDefault", "Array::copy(&[1u16])"));
    t.item(Reject, &format!("{} fn r() -> VBox<Q> {{ VBox::new(q::Init {{ n: 2, x: 1, a: FillWithDefault }}) }}", d));
}

fn unsafe_needed(v: &mut Vec<Prog>) {
    let mut t = tab(v, "unsafe operations need unsafe");
    for (args, e) in [
        ("", "varlen::marker::ArrayMarker::<u8>::new_unchecked()"),
        ("", "varlen::marker::FieldMarker::<u8>::new_unchecked()"),
        ("b: VBox<TS>", "b.into_raw()"),
        ("b: *mut TS", "VBox::from_raw(b)"),
        ("b: Owned<'static, TS>", "b.into_raw()"),
        ("b: NonNull<TS>", "Owned::<'static, TS>::from_raw(b)"),
        ("b: &Seq<TS>", "b.from_offset_unchecked(0)"),
        ("b: &mut Seq<TS>", "b.from_offset_unchecked_mut(0)"),
        ("b: &Seq<TS, CheckedIndexing>", "b.from_offset_unchecked(0)"),
        ("b: Pin<&mut TS>", "{ let l = b.calculate_layout(); b.vdrop(l) }"),
        ("b: Pin<&mut TT>", "{ let l = b.calculate_layout(); b.vdrop(l) }"),
        ("b: Pin<&mut MS>", "{ let l = b.calculate_layout(); b.vdrop(l) }"),
        ("b: Pin<&mut NW>", "{ let l = b.calculate_layout(); b.vdrop(l) }"),
        ("b: Pin<&mut TF>", "{ let l = b.calculate_layout(); b.vdrop(l) }"),
        ("b: NonNull<TF>", "{ let l = FixedLen(1u64).calculate_layout_cautious().unwrap(); FixedLen(1u64).initialize(b, l) }"),
        ("b: NonNull<TA>", "{ let i = init_ta(); let l = Initializer::<TA>::calculate_layout_cautious(&i).unwrap(); i.initialize(b, l) }"),
        ("b: NonNull<TT>", "{ let i = init_tt(); let l = Initializer::<TT>::calculate_layout_cautious(&i).unwrap(); i.initialize(b, l) }"),
        ("b: *mut u8", "varlen::macro_support::drop_array::<u8>(b, 0, 1)"),
        ("b: &u8", "varlen::macro_support::ref_array::<u8, u16>(b, 0, 1)"),
        ("b: *mut u8", "varlen::macro_support::mut_array::<u8, u16>(b, 0, 1)"),
        ("b: &u8", "varlen::macro_support::ref_field::<u8, u16>(b, 0)"),
        ("b: *mut u8", "varlen::macro_support::mut_field::<u8, u16>(b, 0)"),
        ("b: NonNull<u8>", "varlen::macro_support::init_array::<u8>(FillWithDefault, b, 0, 1)"),
    ] {
        t.no(format!("fn p({}) {{ let x = {}; }}", args, e));
        t.ok(format!("fn p({}) {{ unsafe {{ let x = {}; }} }}", args, e));
    }
    let vl = "type Layout = varlen::FixedLenLayout<u8>; const ALIGN: usize = 1; const NEEDS_VDROP: bool = false; fn calculate_layout(&self) -> Self::Layout { any() } unsafe fn vdrop(self: Pin<&mut Self>, _: Self::Layout) {}";
    let ii = "fn calculate_layout_cautious(&self) -> Option<varlen::FixedLenLayout<u8>> { None } unsafe fn initialize(self, d: NonNull<FixedLen<u8>>, l: varlen::FixedLenLayout<u8>) {}";
    for (tr, body) in [("VarLen", vl), ("Initializer<FixedLen<u8>>", ii), ("ArrayInitializer<u8>", "fn initialize(self, dst: &mut [MaybeUninit<u8>]) {}")] {
        t.no(format!("struct Z; impl {} for Z {{ {} }}", tr, body));
        t.ok(format!("struct Z; unsafe impl {} for Z {{ {} }}", tr, body));
    }
    t.no(format!("struct Z; struct C; unsafe impl VarLen for Z {{ {vl} }} unsafe impl Initializer<Z> for C {{ fn calculate_layout_cautious(&self) -> Option<varlen::FixedLenLayout<u8>> {{ None }} unsafe fn initialize(self, d: NonNull<Z>, l: varlen::FixedLenLayout<u8>) {{}} }} impl<'a> VClone<'a> for Z {{ type Cloner = C; fn vclone(&'a self) -> C {{ C }} }} impl<'a> VCopy<'a> for Z {{}}"));
    t.ok(format!("struct Z; struct C; unsafe impl VarLen for Z {{ {vl} }} unsafe impl Initializer<Z> for C {{ fn calculate_layout_cautious(&self) -> Option<varlen::FixedLenLayout<u8>> {{ None }} unsafe fn initialize(self, d: NonNull<Z>, l: varlen::FixedLenLayout<u8>) {{}} }} impl<'a> VClone<'a> for Z {{ type Cloner = C; fn vclone(&'a self) -> C {{ C }} }} unsafe impl<'a> VCopy<'a> for Z {{}}"));
    // sealed: nobody else defines what a length or an indexing mode is
    t.no("#[derive(Clone, Copy)] struct L; impl ArrayLen for L { fn as_usize(self) -> usize { 1 } fn from_usize(x: usize) -> Option<Self> { None } }");
    t.no("struct L; impl Indexing for L {}");
    t.no("struct L; unsafe impl Indexing for L {}");
    for l in ["u8", "u16", "u32", "u64", "usize"] {
        t.ok(format!("fn p(a: &Array<u8, {}>) {{}}", l));
    }
    for l in ["i8", "i64", "f32", "char", "bool", "()", "String"] {
        t.no(format!("fn p(a: &Array<u8, {}>) {{}}", l));
    }
    t.no("fn p() { let s: Seq<u8> = Seq::new(); }");
    t.no("fn p() { let s: VBox<u8> = any(); }");
    t.no("fn p() { let s: Seq<TS, u8> = any(); }");
}

fn controllers(v: &mut Vec<Prog>) {
    let mut t = tab(v, "controllers do not change through views");
    use Verdict::*;
    let defs = [
        ("#[controls_layout] n: u8, x: u16, #[varlen_array] a: [u8; *n as usize]", vec!["n"], vec!["x"]),
        ("#[controls_layout] n: u8, #[controls_layout] m: u16, x: u16, y: String, #[varlen_array] a: [u8; *n as usize], #[varlen_array] b: [u8; *m as usize + *n as usize]", vec!["n", "m"], vec!["x", "y"]),
        ("x: u32, #[varlen_array] a: [u8; *n as usize], #[controls_layout] n: u32, #[varlen] s: Str", vec!["n"], vec!["x"]),
        ("#[controls_layout] n: [u8; 2], x: [u8; 2], #[varlen_array] a: [u8; n[0] as usize]", vec!["n"], vec!["x"]),
        ("#[controls_layout] n: (u8, String), x: (u8, String), #[varlen_array] a: [u8; n.0 as usize]", vec!["n"], vec!["x"]),
        ("#[controls_layout] n: &'static [u8], x: &'static [u8], #[varlen_array] a: [u8; n.len()]", vec!["n"], vec!["x"]),
        ("#[controls_layout] n: Box<usize>, x: Box<usize>, #[varlen_array] a: [u8; **n]", vec!["n"], vec!["x"]),
    ];
    for (f, ctl, plain) in &defs {
        let d = format!("#[define_varlen] pub struct Q {{ {} }}", f);
        for (w, n) in ctl.iter().map(|n| (Reject, n)).chain(plain.iter().map(|n| (Accept, n))) {
            t.item(w, &format!("{} fn p(q: Pin<&mut Q>) {{ *q.muts().{} = any(); }}", d, n));
            t.item(w, &format!("{} fn p(q: Pin<&mut Q>) {{ std::mem::swap(q.muts().{}, &mut any()); }}", d, n));
            t.item(w, &format!("{} fn p(q: Pin<&mut Q>) {{ tm(q.muts().{}); }}", d, n));
            t.item(w, &format!("{} fn p(q: Pin<&mut Q>) {{ let q::Muts {{ {}, .. }} = q.muts(); *{} = any(); }}", d, n, n));
            t.item(w, &format!("{} fn p(mut q: VBox<Q>) {{ *q.as_mut().muts().{} = any(); }}", d, n));
            t.item(w, &format!("{} fn p(mut q: Seq<Q>) {{ *q.iter_mut().next().unwrap().muts().{} = any(); }}", d, n));
            t.item(Reject, &format!("{} fn p(mut q: Pin<&mut Q>) {{ q.{} = any(); }}", d, n));
            t.item(Reject, &format!("{} fn p(mut q: VBox<Q>) {{ q.{} = any(); }}", d, n));
            t.item(Reject, &format!("{} fn p(q: &mut Q) {{ *q.muts().{} = any(); }}", d, n));
            t.item(Reject, &format!("{} fn p(q: &Q) {{ *q.refs().{} = any(); }}", d, n));
            t.item(Reject, &format!("{} fn p(q: &Q) {{ let q::Refs {{ {}, .. }} = q.refs(); *{} = any(); }}", d, n, n));
            t.item(Accept, &format!("{} fn p(q: &Q) {{ t(q.refs().{}); t(&q.{}); }}", d, n, n));
        }
        let lc = |x: &[&str]| x.iter().map(|n| format!("{}: any()", n)).collect::<Vec<_>>().join(", ");
        t.item(Accept, &format!("{} fn p(q: Pin<&mut Q>) {{ let _ = q.try_set_layout_controllers(q::LayoutControllers {{ {} }}); }}", d, lc(ctl)));
        t.item(Reject, &format!("{} fn p(q: Pin<&mut Q>) {{ let _ = q.try_set_layout_controllers(q::LayoutControllers {{ {}, {}: any() }}); }}", d, lc(ctl), plain[0]));
        t.item(Reject, &format!("{} fn p(q: &mut Q) {{ let _ = q.try_set_layout_controllers(q::LayoutControllers {{ {} }}); }}", d, lc(ctl)));
        t.item(Reject, &format!("{} fn p(q: &Q) {{ let _ = q.try_set_layout_controllers(q::LayoutControllers {{ {} }}); }}", d, lc(ctl)));
        if ctl.len() > 1 {
            t.item(Reject, &format!("{} fn p(q: Pin<&mut Q>) {{ let _ = q.try_set_layout_controllers(q::LayoutControllers {{ {} }}); }}", d, lc(&ctl[1..])));
        }
    }
    // array elements, nested objects and tuple parts may change; lengths may not
    t.ok("fn p(q: Pin<&mut MS>) { q.muts().arr[0] = 1; }");
    t.ok("fn p(q: Pin<&mut MS>) { q.muts().s.mut_slice().make_ascii_uppercase(); }");
    t.ok("fn p(q: Pin<&mut TT>) { q.muts().0.set(FixedLen(3)); }");
    t.ok("fn p(q: Pin<&mut TT>) { q.muts().1.mut_slice()[0] = 1; }");
    t.no("fn p(q: Pin<&mut MS>) { q.muts().arr.push(1); }");
    t.no("fn p(q: &MS) { q.refs().arr[0] = 1; }");
    t.no("fn p(q: &TT) { q.refs().1.mut_slice(); }");
}

fn lengths(v: &mut Vec<Prog>) {
    let mut t = tab(v, "array lengths depend on controllers only");
    use Verdict::*;
    let head = "const K: usize = 3; const fn sq(x: u8) -> usize { x as usize * x as usize } fn dynf(x: u8) -> usize { x as usize } static AT: AtomicUsize = AtomicUsize::new(1); \
        struct Arg(u8); impl Arg { const fn len(&self) -> usize { self.0 as usize } fn dlen(&self) -> usize { self.0 as usize } } trait Ln { fn ln(&self) -> usize; } impl Ln for u8 { fn ln(&self) -> usize { 1 } } \
        struct CellW(Cell<usize>); thread_local! { static TL: Cell<usize> = const { Cell::new(1) }; }";
    for (want, ctl, e) in [
        (Accept, "n: usize", "*n"),
        (Accept, "n: u8", "*n as usize"),
        (Accept, "n: usize", "*n * 4"),
        (Accept, "n: usize", "K * *n"),
        (Accept, "n: usize", "(*n % 4) as usize"),
        (Accept, "n: u8", "sq(*n)"),
        (Accept, "n: u8", "if *n > 2 { 2 } else { 1 }"),
        (Accept, "n: u8", "match *n { 0 => 1, x => x as usize }"),
        (Accept, "n: u8", "{ let x = *n as usize; x + 1 }"),
        (Accept, "n: u8", "n.count_ones() as usize"),
        (Accept, "n: u8", "core::mem::size_of::<u32>() * *n as usize"),
        (Accept, "n: u8", "7"),
        (Accept, "n: u8", "K"),
        (Accept, "n: &'static [u8]", "n.len()"),
        (Accept, "n: &'static str", "n.len()"),
        (Accept, "n: [u8; 3]", "n[0] as usize + n[2] as usize"),
        (Accept, "n: (u8, u16)", "n.0 as usize + n.1 as usize"),
        (Accept, "n: Arg", "n.len()"),
        (Accept, "n: bool", "if *n { 4 } else { 0 }"),
        (Accept, "n: char", "n.len_utf8()"),
        (Accept, "n: Option<u8>", "match n { Some(x) => *x as usize, None => 0 }"),
        // not a controller
        (Reject, "n: u8", "*plain as usize"),
        (Reject, "n: u8", "*n as usize + *plain as usize"),
        (Reject, "n: u8", "first.len()"),
        (Reject, "n: u8", "s.len()"),
        (Reject, "n: u8", "self.n as usize"),
        (Reject, "n: u8", "unknown"),
        // not a function of its arguments
        (Reject, "n: u8", "dynf(*n)"),
        (Reject, "n: Arg", "n.dlen()"),
        (Reject, "n: u8", "n.ln()"),
        (Reject, "n: u8", "AT.load(Ordering::Relaxed)"),
        (Reject, "n: u8", "AT.fetch_add(1, Ordering::Relaxed)"),
        (Reject, "n: u8", "TL.with(|x| x.get())"),
        (Reject, "n: u8", "n as *const u8 as usize"),
        (Reject, "n: u8", "n as *const _ as usize"),
        (Reject, "n: u8", "std::mem::transmute::<&u8, usize>(n)"),
        (Reject, "n: u8", "std::env::args().count()"),
        (Reject, "n: u8", "std::time::Instant::now().elapsed().as_secs() as usize"),
        (Reject, "n: u8", "String::from(\"x\").len() + vec![1u8].len()"),
        (Reject, "n: fn() -> usize", "n()"),
        (Reject, "n: &'static (dyn Fn() -> usize + Sync)", "n()"),
        // controllers that change on their own
        (Reject, "n: Cell<usize>", "n.get()"),
        (Reject, "n: Cell<usize>", "n.replace(3)"),
        (Reject, "n: &'static Cell<usize>", "n.get()"),
        (Reject, "n: CellW", "n.0.get()"),
        (Reject, "n: (u8, Cell<usize>)", "n.1.get()"),
        (Reject, "n: [Cell<usize>; 2]", "n[0].get()"),
        (Reject, "n: Rc<Cell<usize>>", "n.get()"),
        (Reject, "n: RefCell<usize>", "*n.borrow()"),
        (Reject, "n: OnceCell<usize>", "match n.get() { Some(x) => *x, None => 0 }"),
        (Reject, "n: AtomicUsize", "n.load(Ordering::Relaxed)"),
        (Reject, "n: &'static AtomicUsize", "n.load(Ordering::Relaxed)"),
        (Reject, "n: std::sync::Mutex<usize>", "*n.lock().unwrap()"),
        (Reject, "n: std::sync::OnceLock<usize>", "*n.get_or_init(|| 1)"),
        (Reject, "n: *const usize", "*n.read()"),
        // effects on the controllers
        (Reject, "n: usize", "{ *n = 3; *n }"),
        (Reject, "n: usize", "std::mem::replace(n, 3)"),
        // not a length
        (Reject, "n: u8", "*n"),
        (Reject, "n: u8", "n"),
        (Reject, "n: usize", "-1"),
        (Reject, "n: usize", "\"a\""),
    ] {
        t.item(want, &format!("{} #[define_varlen] pub struct Q {{ #[controls_layout] {}, plain: u8, #[varlen_array] first: [u8; 2], #[varlen] s: Str, #[varlen_array] a: [u16; {}] }}", head, ctl, e));
    }
    // a field that does not decide any length may be anything, as long as it is not marked
    for ty in ["Cell<usize>", "Rc<u8>", "AtomicUsize", "RefCell<String>", "fn() -> usize"] {
        t.item(Accept, &format!("#[define_varlen] pub struct Q {{ #[controls_layout] n: u8, plain: {}, #[varlen_array] a: [u16; *n as usize] }}", ty));
    }
}

/// (argument, its type with lifetime 'L, expression, result type with 'L, extra generics)
const SIGS: &[(&str, &str, &str, bool)] = &[
    ("&'L Seq<TS>", "x.iter()", "Iter<'L, TS>", true),
    ("&'L Seq<TS, CheckedIndexing>", "x.iter()", "Iter<'L, TS>", true),
    ("&'L Seq<TS, CheckedIndexing>", "x.from_offset(0)", "&'L TS", true),
    ("&'L Seq<TS>", "unsafe { x.from_offset_unchecked(0) }", "&'L TS", true),
    ("&'L mut Seq<TS>", "x.iter_mut()", "IterMut<'L, TS>", true),
    ("&'L mut Seq<TS, CheckedIndexing>", "x.from_offset_mut(0)", "Pin<&'L mut TS>", true),
    ("&'L mut Seq<TS>", "unsafe { x.from_offset_unchecked_mut(0) }", "Pin<&'L mut TS>", true),
    ("&'L mut Seq<TS>", "x.take_elems()", "OwnedElems<'L, TS>", true),
    ("Iter<'L, TS>", "x.next().unwrap()", "&'L TS", true),
    ("Iter<'L, TS>", "x.limited_to(1)", "Iter<'L, TS>", true),
    ("IterMut<'L, TS>", "x.next().unwrap()", "Pin<&'L mut TS>", true),
    ("IterMut<'L, TS>", "x.limited_to(1)", "IterMut<'L, TS>", true),
    ("OwnedElems<'L, TS>", "x.next().unwrap()", "Owned<'L, TS>", true),
    ("&'L Owned<'static, TS>", "&**x", "&'L TS", true),
    ("&'L mut Owned<'static, TS>", "x.as_mut()", "Pin<&'L mut TS>", true),
    ("Owned<'L, TS>", "x.leak()", "Pin<&'L mut TS>", true),
    ("Owned<'L, TS>", "x", "Owned<'L, TS>", true),
    ("&'L bumpalo::Bump", "Owned::new_in(init_ts(), x)", "Owned<'L, TS>", true),
    ("&'L VBox<TS>", "&**x", "&'L TS", true),
    ("&'L mut VBox<TS>", "x.as_mut()", "Pin<&'L mut TS>", true),
    ("&'L TS", "x.vclone()", "<TS as VClone<'L>>::Cloner", true),
    ("&'L TA", "x.vclone()", "<TA as VClone<'L>>::Cloner", true),
    ("&'L TT", "x.vclone()", "<TT as VClone<'L>>::Cloner", true),
    ("&'L FixedLen<String>", "x.vclone()", "<FixedLen<String> as VClone<'L>>::Cloner", true),
    ("&'L TS", "x.vcopy()", "varlen::VCopier<'L, TS>", true),
    ("&'L TA", "x.vcopy()", "varlen::VCopier<'L, TA>", true),
    ("&'L TT", "x.vcopy()", "varlen::VCopier<'L, TT>", true),
    ("&'L TT", "x.refs()", "tup2::Refs<'L, FixedLen<u16>, Array<u16, u8>>", true),
    ("&'L TT", "x.refs().1", "&'L Array<u16, u8>", true),
    ("&'L TT", "x.refs().0", "&'L FixedLen<u16>", true),
    ("Pin<&'L mut TT>", "x.muts()", "tup2::Muts<'L, FixedLen<u16>, Array<u16, u8>>", true),
    ("Pin<&'L mut TT>", "x.muts().1", "Pin<&'L mut Array<u16, u8>>", true),
    ("&'L Tup3<Str, Str, Str>", "x.refs().2", "&'L Str", true),
    ("Pin<&'L mut Tup3<Str, Str, Str>>", "x.muts().2", "Pin<&'L mut Str>", true),
    ("&'L Tup4<Str, Str, Str, Str>", "x.refs().3", "&'L Str", true),
    ("Pin<&'L mut Tup4<Str, Str, Str, Str>>", "x.muts().3", "Pin<&'L mut Str>", true),
    ("&'L Tup5<Str, Str, Str, Str, Str>", "x.refs().4", "&'L Str", true),
    ("Pin<&'L mut Tup5<Str, Str, Str, Str, Str>>", "x.muts().4", "Pin<&'L mut Str>", true),
    ("Pin<&'L mut TA>", "x.mut_slice()", "&'L mut [u16]", true),
    ("&'L TA", "&x[..]", "&'L [u16]", true),
    ("Pin<&'L mut TS>", "x.mut_slice()", "&'L mut str", true),
    ("&'L TS", "&x[..]", "&'L str", true),
    ("&'L NW", "x.inner()", "&'L Array<u16, u8>", true),
    ("Pin<&'L mut NW>", "x.inner_mut()", "Pin<&'L mut Array<u16, u8>>", true),
    ("&'L MS", "x.refs()", "ms::Refs<'L>", true),
    ("Pin<&'L mut MS>", "x.muts()", "ms::Muts<'L>", true),
    ("&'L MS", "x.refs().arr", "&'L [u16]", true),
    ("&'L MS", "x.refs().s", "&'L Str<u8>", true),
    ("&'L MS", "x.refs().x", "&'L u32", true),
    ("&'L MS", "x.refs().n", "&'L u8", true),
    ("Pin<&'L mut MS>", "x.muts().arr", "&'L mut [u16]", true),
    ("Pin<&'L mut MS>", "x.muts().s", "Pin<&'L mut Str<u8>>", true),
    ("Pin<&'L mut MS>", "x.muts().x", "&'L mut u32", true),
    ("Pin<&'L mut MS>", "x.muts().n", "&'L u8", true),
    ("&'L G<u8>", "x.refs().arr", "&'L [u8]", false),
    ("&'L [u16]", "Array::copy(x)", "SizedInit<CopyFrom<'L, u16>>", true),
    ("&'L [u16]", "Array::clone_from_slice(x)", "SizedInit<CloneFrom<'L, u16>>", true),
    ("&'L [u16]", "Array::try_copy(x).unwrap()", "SizedInit<CopyFrom<'L, u16>, u8>", true),
    ("&'L [u16]", "Array::try_clone_from_slice(x).unwrap()", "SizedInit<CloneFrom<'L, u16>, u8>", true),
    ("&'L str", "Str::copy(x)", "impl Initializer<Str> + 'L", true),
    ("&'L str", "Str::<u8>::try_copy(x).unwrap()", "impl Initializer<Str<u8>> + 'L", true),
    ("&'L [u16]", "SizedInit(2usize, CopyFrom(x))", "impl Initializer<Array<u16>> + 'L", true),
    ("&'L [u16]", "SizedInit(2usize, FromIterPrefix(x.iter().copied()))", "impl Initializer<Array<u16>> + 'L", true),
    ("&'L [u16]", "SizedInit(2usize, FillSequentially(move |i: usize| x[i]))", "impl Initializer<Array<u16>> + 'L", true),
    ("&'L [u16]", "tup2::Init(FixedLen(1u8), Array::copy(x))", "impl Initializer<Tup2<FixedLen<u8>, Array<u16>>> + 'L", true),
    ("&'L str", "ms::Init { n: 1, x: 1, arr: FillWithDefault, s: Str::try_copy(x).unwrap() }", "impl Initializer<MS> + 'L", true),
    ("&'L [u16]", "NWInit(Array::<u16, u8>::try_copy(x).unwrap())", "impl Initializer<NW> + 'L", true),
];

fn borrowing_signatures(v: &mut Vec<Prog>) {
    let mut t = tab(v, "results live no longer than what they borrow");
    for (arg, e, out, _) in SIGS {
        let f = |g: &str, a: &str, o: &str| format!("fn p{}(mut x: {}) -> {} {{ {} }}", g, arg.replace("'L", a), out.replace("'L", o), e);
        t.ok(f("<'a>", "'a", "'a"));
        t.no(f("<'a>", "'a", "'static"));
        t.no(f("<'a, 'b>", "'a", "'b"));
        t.ok(f("<'a: 'b, 'b>", "'a", "'b"));
        // a local
        if let Some(owner) = arg.strip_prefix("&'L ").map(|s| s.strip_prefix("mut ").unwrap_or(s)) {
            if !matches!(owner, "str" | "[u16]") {
                let r = if arg.contains(" mut ") { "&mut y" } else { "&y" };
                t.no(format!("fn p<'a>(mut y: {}) -> {} {{ let mut x = {}; {} }}", owner, out.replace("'L", "'a"), r, e));
            }
        }
    }
}

fn exclusivity(v: &mut Vec<Prog>) {
    let mut t = tab(v, "mutation needs exclusive, pinned access");
    for (ty, e) in [
        ("Seq<TS>", "x.iter_mut()"), ("Seq<TS>", "x.take_elems()"), ("Seq<TS>", "x.push(init_ts())"), ("Seq<TS>", "x.extend([init_ts()])"), ("Seq<TS, CheckedIndexing>", "x.from_offset_mut(0)"),
        ("Seq<TS>", "unsafe { x.from_offset_unchecked_mut(0) }"), ("VBox<TS>", "x.as_mut()"), ("Owned<'static, TS>", "x.as_mut()"), ("IterMut<'static, TS>", "x.next()"), ("OwnedElems<'static, TS>", "x.next()"), ("Iter<'static, TS>", "x.next()"),
    ] {
        t.no(format!("fn p(x: &{}) {{ t(&{}); }}", ty, e));
        t.ok(format!("fn p(x: &mut {}) {{ t(&{}); }}", ty, e));
    }
    for (ty, e) in [
        ("TA", "x.mut_slice()"), ("TS", "x.mut_slice()"), ("TT", "x.muts()"), ("MS", "x.muts()"), ("NW", "x.inner_mut()"), ("MS", "x.try_set_layout_controllers(ms::LayoutControllers { n: 1 })"), ("Tup3<Str, Str, Str>", "x.muts()"), ("G<u8>", "x.muts()"),
    ] {
        t.no(format!("fn p(x: &{}) {{ t(&{}); }}", ty, e));
        t.no(format!("fn p(x: &mut {}) {{ t(&{}); }}", ty, e));
        t.no(format!("fn p(x: Pin<&{}>) {{ t(&{}); }}", ty, e));
        t.ok(format!("fn p(x: Pin<&mut {}>) {{ t(&{}); }}", ty, e));
        // twice at once
        t.no(format!("fn p(x: Pin<&mut {}>) {{ let a = {}; let b = {}; t(&a); }}", ty, e, e));
        if !e.contains("try_set") {
            t.no(format!("fn p(mut x: Pin<&mut {}>) {{ let a = {}; let b = {}; t(&a); }}", ty, e.replace("x.", "x.as_mut()."), e.replace("x.", "x.as_mut().")));
        }
        t.ok(format!("fn p(mut x: Pin<&mut {}>) {{ let a = {}; t(&a); let b = {}; t(&b); }}", ty, e.replace("x.", "x.as_mut()."), e.replace("x.", "x.as_mut().")));
    }
    // consuming methods consume
    for (ty, e) in [("Owned<'static, TS>", "x.leak()"), ("Owned<'static, TS>", "VBox::new(x)"), ("VBox<TS>", "VBox::new(x)"), ("IterMut<'static, TS>", "x.limited_to(1)"), ("OwnedElems<'static, TS>", "x.count()"), ("IterMut<'static, TS>", "x.count()")] {
        t.no(format!("fn p(x: {}) {{ let y = {}; t(&x); }}", ty, e));
        t.ok(format!("fn p(x: {}) {{ let y = {}; t(&y); }}", ty, e));
    }
    // two disjoint parts may change together
    t.ok("fn p(x: Pin<&mut TT>) { let m = x.muts(); let a = m.0; let b = m.1; t(&a); t(&b); }");
    t.ok("fn p(x: Pin<&mut MS>) { let m = x.muts(); m.arr[0] = 1; *m.x = 2; let s = m.s.mut_slice(); m.arr[1] = 2; t(&s); }");
    t.ok("fn p(s: &mut Seq<TS>) { let mut i = s.iter_mut(); let a = i.next().unwrap(); let b = i.next().unwrap(); t(&a); t(&b); }");
    t.ok("fn p(s: &mut Seq<TS>) { let mut i = s.take_elems(); let a = i.next().unwrap(); let b = i.next().unwrap(); t(&a); t(&b); drop(a); t(&b); }");
    t.no("fn p(s: &mut Seq<TS, CheckedIndexing>) { let a = s.from_offset_mut(0); let b = s.from_offset_mut(0); t(&a); }");
    t.ok("fn p(s: &Seq<TS, CheckedIndexing>) { let a = s.from_offset(0); let b = s.from_offset(0); t(&a); }");
    // closures that would see the container while it is being filled
    for (e, ok) in [("s.push(SizedInit(1usize, FillSequentially(|i: usize| 1u16)))", true), ("s.push(SizedInit(1usize, FillSequentially(|i: usize| s.len() as u16)))", false), ("s.push(SizedInit(1usize, FillSequentially(|i: usize| { s.take_elems(); 1u16 })))", false), ("s.push(SizedInit(1usize, FromIterPrefix(s.iter().map(|x| x[0]))))", false), ("s.push(SizedInit(o.len(), FromIterPrefix(o.iter().map(|x| x[0]))))", true), ("s.push(SizedInit(1usize, CopyFrom(&s.iter().next().unwrap()[..])))", false), ("s.push(SizedInit(1usize, CopyFrom(&o.iter().next().unwrap()[..])))", true),
        ("s.extend(s.iter().map(|x| x.vcopy()))", false), ("s.extend(o.iter().map(|x| x.vcopy()))", true), ("s.extend(o.take_elems())", true), ("s.extend(s.take_elems())", false)] {
        t.if_(ok, format!("fn p(s: &mut Seq<Array<u16>>, o: &mut Seq<Array<u16>>) {{ {}; }}", e));
    }
}

fn variance(v: &mut Vec<Prog>) {
    let mut t = tab(v, "content lifetimes cannot be stretched");
    let c = "FixedLen<&'L u8>";
    // (type with 'm for the borrow and 'L for the content, may the content lifetime shrink?)
    let tys: Vec<(String, Option<bool>)> = vec![
        (format!("VBox<{}>", c), None),
        (format!("Seq<{}>", c), None),
        (format!("Seq<{}, CheckedIndexing>", c), None),
        (format!("Owned<'m, {}>", c), None),
        (format!("Iter<'m, {}>", c), Some(true)),
        (format!("IterMut<'m, {}>", c), Some(false)),
        (format!("OwnedElems<'m, {}>", c), None),
        (format!("&'m {}", c), Some(true)),
        (format!("&'m mut {}", c), Some(false)),
        (format!("Pin<&'m mut {}>", c), Some(false)),
        (format!("&'m mut VBox<{}>", c), Some(false)),
        (format!("&'m mut Seq<{}>", c), Some(false)),
        (format!("&'m mut Owned<'m, {}>", c), Some(false)),
        (format!("&'m Tup2<{}, Str>", c), None),
        (format!("Pin<&'m mut Tup2<{}, Str>>", c), Some(false)),
        (format!("tup2::Refs<'m, {}, Str>", c), None),
        (format!("tup2::Muts<'m, {}, Str>", c), Some(false)),
        ("Pin<&'m mut Array<&'L u8>>".into(), Some(false)),
        ("&'m Array<&'L u8>".into(), None),
        ("VBox<Array<&'L u8>>".into(), None),
        ("Pin<&'m mut G<&'L u8>>".into(), Some(false)),
        ("&'m G<&'L u8>".into(), None),
        ("g::Muts<'m, &'L u8>".into(), Some(false)),
        ("g::Refs<'m, &'L u8>".into(), None),
        ("Pin<&'m mut GW<&'L u8>>".into(), Some(false)),
        ("varlen::VCopier<'m, FixedLen<&'L u8>>".into(), None),
        ("ArrayCloner<'m, &'L u8, u8>".into(), None),
        ("CopyFrom<'m, &'L u8>".into(), None),
        ("CloneFrom<'m, &'L u8>".into(), None),
        ("MoveFrom<&'L u8, 2>".into(), None),
        ("Array<Cell<&'L u8>>".into(), Some(false)),
        ("VBox<FixedLen<Cell<&'L u8>>>".into(), Some(false)),
        ("Seq<FixedLen<Cell<&'L u8>>>".into(), Some(false)),
        ("Iter<'m, FixedLen<Cell<&'L u8>>>".into(), Some(false)),
        ("Owned<'m, FixedLen<Cell<&'L u8>>>".into(), Some(false)),
        ("OwnedElems<'m, FixedLen<Cell<&'L u8>>>".into(), Some(false)),
        ("varlen::marker::ArrayMarker<Cell<&'L u8>>".into(), Some(false)),
        ("varlen::marker::FieldMarker<Cell<&'L u8>>".into(), Some(false)),
    ];
    for (ty, shrink) in &tys {
        let f = |a: &str, b: &str| format!("fn p<'m, 'l>(x: {}) -> {} where 'l: 'm {{ x }}", ty.replace("'L", a), ty.replace("'L", b));
        t.ok(f("'l", "'l"));
        t.no(f("'l", "'static"));
        if let Some(s) = shrink {
            t.if_(*s, f("'static", "'l"));
        }
        if ty.contains("'m") {
            let g = |a: &str, b: &str| format!("fn p<'l: 'k, 'k>(x: {}) -> {} {{ x }}", ty.replace("'m", a).replace("'L", "'static"), ty.replace("'m", b).replace("'L", "'static"));
            t.no(g("'k", "'static"));
            t.no(g("'k", "'l"));
            t.ok(g("'k", "'k"));
        }
    }
}

fn dropck(v: &mut Vec<Prog>) {
    let mut t = tab(v, "content outlives its owner");
    for (k, put) in [
        ("Option<VBox<FixedLen<&String>>> = None", "o = Some(VBox::new(FixedLen(&y)));"),
        ("Option<VBox<Array<&String>>> = None", "o = Some(VBox::new(SizedInit(1usize, MoveFrom([&y]))));"),
        ("Option<VBox<Tup2<Str, FixedLen<&String>>>> = None", "o = Some(VBox::new(tup2::Init(Str::copy(\"a\"), FixedLen(&y))));"),
        ("Option<VBox<G<&String>>> = None", "o = Some(VBox::new(g::Init { n: 1, arr: MoveFrom([&y]), z: SizedInit(1usize, MoveFrom([&y])) }));"),
        ("Option<VBox<GW<&String>>> = None", "o = Some(VBox::new(GWInit(SizedInit(1usize, MoveFrom([&y])))));"),
        ("Seq<FixedLen<&String>> = Seq::new()", "o.push(FixedLen(&y));"),
        ("Seq<FixedLen<&String>, CheckedIndexing> = Seq::new()", "o.push(FixedLen(&y));"),
        ("Seq<Array<&String, u8>> = Seq::new()", "o.push(SizedInit(1u8, MoveFrom([&y])));"),
        ("Option<Owned<'_, FixedLen<&String>>> = None", "o = Some(Owned::new_in(FixedLen(&y), &b));"),
        ("Option<Owned<'_, Array<&String>>> = None", "o = Some(Owned::new_in(SizedInit(1usize, MoveFrom([&y])), &b));"),
    ] {
        t.no(format!("fn p() {{ let b = bumpalo::Bump::new(); let mut o: {}; let y = String::new(); {} }}", k, put));
        t.ok(format!("fn p() {{ let b = bumpalo::Bump::new(); let y = String::new(); let mut o: {}; {} }}", k, put));
        t.no(format!("fn p() {{ let b = bumpalo::Bump::new(); let mut o: {}; {{ let y = String::new(); {} }} t(&o); }}", k, put));
        t.no(format!("fn p() {{ let b = bumpalo::Bump::new(); let y = String::new(); let mut o: {}; {} drop(y); }}", k, put));
        t.no(format!("fn p() {{ let b = bumpalo::Bump::new(); let y = String::new(); let mut o: {}; {} drop(y); t(&o); }}", k, put));
        t.ok(format!("fn p() {{ let b = bumpalo::Bump::new(); let y = String::new(); let mut o: {}; {} drop(o); drop(y); }}", k, put));
    }
    // storage outlives what is in it
    t.no("fn p() { let o; { let b = bumpalo::Bump::new(); o = Owned::<TS>::new_in(init_ts(), &b); } t(&o); }");
    t.no("fn p() { let o; let b = bumpalo::Bump::new(); o = Owned::<TS>::new_in(init_ts(), &b); }");
    t.ok("fn p() { let b = bumpalo::Bump::new(); let o; o = Owned::<TS>::new_in(init_ts(), &b); }");
    t.no("fn p() { let o; { let mut s = Seq::<TS>::new(); o = s.take_elems().next(); } t(&o); }");
    t.no("fn p() { let o; let mut s = Seq::<TS>::new(); o = s.take_elems().next(); }");
    t.ok("fn p() { let mut s = Seq::<TS>::new(); let o; o = s.take_elems().next(); }");
    t.no("fn p() { let i; let mut s = Seq::<TS>::new(); i = s.take_elems(); }");
    // a container holding the element taken from another
    t.no("fn p() { let mut s = Seq::<TS>::new(); let mut v = vec![]; v.extend(s.take_elems()); s.push(init_ts()); t(&v); }");
    t.ok("fn p() { let mut s = Seq::<TS>::new(); let mut v = vec![]; v.extend(s.take_elems()); drop(v); s.push(init_ts()); }");
    t.no("fn p() { let mut s = Seq::<TS>::new(); let v: Vec<&TS> = s.iter().collect(); s.push(init_ts()); t(&v); }");
    t.ok("fn p() { let mut s = Seq::<TS>::new(); let v: Vec<VBox<TS>> = s.iter().map(|x| VBox::new(x.vcopy())).collect(); s.push(init_ts()); t(&v); }");
    t.no("fn p() { let mut s = Seq::<TS>::new(); for x in s.iter() { s.push(init_ts()); } }");
    t.no("fn p() { let mut s = Seq::<TS>::new(); for x in s.iter_mut() { t(&s.len()); } }");
    t.ok("fn p() { let mut s = Seq::<TS>::new(); for x in s.iter() { t(&s.len()); } }");
    t.no("fn p() { let mut s = Seq::<TS>::new(); let mut v = None; for i in 0..2 { s.push(init_ts()); t(&v); v = s.iter().next(); } }");
    t.ok("fn p() { let mut s = Seq::<TS>::new(); let mut v; for i in 0..2 { s.push(init_ts()); v = s.iter().next(); t(&v); } }");
    t.no("fn p(c: bool) { let mut s = Seq::<TS>::new(); let mut b = VBox::<TS>::new(init_ts()); let e: &TS = if c { &b } else { s.iter().next().unwrap() }; b = VBox::new(init_ts()); t(e); }");
    t.no("fn p(c: bool) { let mut s = Seq::<TS>::new(); let mut b = VBox::<TS>::new(init_ts()); let e: &TS = if c { &b } else { s.iter().next().unwrap() }; s.push(init_ts()); t(e); }");
}

fn threads(v: &mut Vec<Prog>) {
    let mut t = tab(v, "thread-safety follows the contents");
    // content, is it Send, is it Sync
    let cs = [("u8", true, true), ("Cell<u8>", true, false), ("std::sync::MutexGuard<'static, u8>", false, true), ("Rc<u8>", false, false), ("*const u8", false, false), ("&'static Cell<u8>", false, false), ("Rc<Cell<u8>>", false, false), ("&'static u8", true, true)];
    // constructor, Send needs (Send, Sync), Sync needs (Send, Sync); header-like types have the auto traits of their contents
    // S: the content must be Send, Y: must be Sync
    let ks: [(&str, char, char, bool); 33] = [
        ("Array<C>", 'S', 'Y', true),
        ("Array<C, u8>", 'S', 'Y', true),
        ("FixedLen<C>", 'S', 'Y', true),
        ("Tup2<FixedLen<C>, Array<u8>>", 'S', 'Y', true),
        ("Tup2<Array<u8>, Array<C>>", 'S', 'Y', true),
        ("Tup3<Str, Str, Array<C>>", 'S', 'Y', true),
        ("G<C>", 'S', 'Y', true),
        ("GW<C>", 'S', 'Y', true),
        ("varlen::marker::ArrayMarker<C>", 'S', 'Y', true),
        ("varlen::marker::FieldMarker<FixedLen<C>>", 'S', 'Y', true),
        ("MoveFrom<C, 2>", 'S', 'Y', true),
        ("tup2::Refs<'static, FixedLen<C>, Str>", 'Y', 'Y', true),
        ("tup2::Muts<'static, FixedLen<C>, Str>", 'S', 'Y', true),
        ("g::Refs<'static, C>", 'Y', 'Y', true),
        ("g::Muts<'static, C>", 'S', 'Y', true),
        ("varlen::VCopier<'static, FixedLen<C>>", 'Y', 'Y', true),
        ("CopyFrom<'static, C>", 'Y', 'Y', true),
        ("CloneFrom<'static, C>", 'Y', 'Y', true),
        ("ArrayCloner<'static, C, u8>", 'Y', 'Y', true),
        ("Pin<&'static mut FixedLen<C>>", 'S', 'Y', true),
        ("VBox<FixedLen<C>>", 'S', 'Y', false),
        ("VBox<Array<C>>", 'S', 'Y', false),
        ("VBox<Tup2<Str, Array<C>>>", 'S', 'Y', false),
        ("VBox<G<C>>", 'S', 'Y', false),
        ("Seq<FixedLen<C>>", 'S', 'Y', false),
        ("Seq<FixedLen<C>, CheckedIndexing>", 'S', 'Y', false),
        ("Seq<Array<C>>", 'S', 'Y', false),
        ("Seq<G<C>>", 'S', 'Y', false),
        ("Owned<'static, FixedLen<C>>", 'S', 'Y', false),
        ("OwnedElems<'static, FixedLen<C>>", 'S', 'Y', false),
        ("Iter<'static, FixedLen<C>>", 'Y', 'Y', false),
        ("IterMut<'static, FixedLen<C>>", 'S', 'Y', false),
        ("&'static VBox<FixedLen<C>>", 'Y', 'Y', false),
    ];
    for (k, s, y, auto) in ks {
        for (c, cs, cy) in cs {
            let need = |x: char| if x == 'S' { cs } else { cy };
            for (tr, n) in [("send", need(s)), ("sync", need(y))] {
                let p = format!("fn p() {{ {}::<{}>() }}", tr, k.replace(" C>", &format!(" {}>", c)).replace("<C>", &format!("<{}>", c)).replace("<C,", &format!("<{},", c)).replace(" C,", &format!(" {},", c)));
                if !n {
                    t.no(p);
                } else if auto {
                    t.ok(p);
                }
            }
        }
    }
    for ty in ["Str", "Str<u8>", "MS", "NW", "Plain"] {
        t.ok(format!("fn p() {{ send::<{}>(); sync::<{}>() }}", ty, ty));
    }
    // other parts of a struct
    use Verdict::*;
    for (f, s, y) in [("x: Rc<u8>", false, false), ("x: Cell<u8>", true, false), ("#[varlen_array] a: [Rc<u8>; 2]", false, false), ("#[varlen] a: Array<Rc<u8>>", false, false), ("#[varlen_array] a: [Cell<u8>; 2]", true, false), ("#[varlen] a: Array<Cell<u8>>", true, false), ("#[varlen] a: Tup2<Str, FixedLen<*const u8>>", false, false), ("#[varlen] a: Str", true, true), ("x: std::sync::MutexGuard<'static, u8>", false, true), ("#[varlen_array] a: [std::sync::MutexGuard<'static, u8>; 2]", false, true), ("#[varlen] a: FixedLen<std::sync::MutexGuard<'static, u8>>", false, true)] {
        t.item(if s { Accept } else { Reject }, &format!("#[define_varlen] pub struct Q {{ {} }} fn p() {{ send::<Q>() }}", f));
        t.item(if y { Accept } else { Reject }, &format!("#[define_varlen] pub struct Q {{ {} }} fn p() {{ sync::<Q>() }}", f));
        if !s {
            t.item(Reject, &format!("#[define_varlen] pub struct Q {{ {} }} fn p() {{ send::<VBox<Q>>() }}", f));
            t.item(Reject, &format!("#[define_varlen] pub struct Q {{ {} }} fn p() {{ send::<Seq<Q>>() }}", f));
        }
        if !y {
            t.item(Reject, &format!("#[define_varlen] pub struct Q {{ {} }} fn p() {{ sync::<VBox<Q>>() }}", f));
            t.item(Reject, &format!("#[define_varlen] pub struct Q {{ {} }} fn p() {{ send::<Iter<'static, Q>>() }}", f));
        }
    }
    t.no("fn p(b: VBox<FixedLen<Rc<u8>>>) { std::thread::spawn(move || drop(b)); }");
    t.no("fn p(b: Seq<Array<Rc<u8>>>) { std::thread::spawn(move || drop(b)); }");
    t.no("fn p(b: &Seq<Array<Cell<u8>>>) { std::thread::scope(|s| { s.spawn(|| t(b)); }); }");
    t.no("fn p(b: &Array<Cell<u8>>) { std::thread::scope(|s| { s.spawn(|| t(b)); }); }");
    t.ok("fn p(b: &Array<u8>) { std::thread::scope(|s| { s.spawn(|| t(b)); }); }");
    t.ok("fn p(b: Pin<&mut Array<u8>>) { std::thread::scope(|s| { s.spawn(|| t(&b)); }); }");
    t.no("fn p(b: Pin<&mut Array<Rc<u8>>>) { std::thread::scope(|s| { s.spawn(move || t(&b)); }); }");
}
