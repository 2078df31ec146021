//! C21: what `#[define_varlen]` exposes, and to whom. Client programs, decided by the compiler, against
//! Rust's own visibility rules applied to the declared visibilities.
use mc::clients::{section, section_using, Client};
use mc::driver::*;
use mc::explore::*;

const PRELUDE: &str = "#![allow(warnings)]\n";

// --------------------------------------------------------------------------------------- where things are
/// Places relative to the module `h` that holds the definition: crate::T::g::p::h, its child `c`, its
/// parent `p`, its sibling `s`, the grandparent `g`, `q` next to the parent, `r` outside of `g`.
const LOCS: [&str; 8] = ["h", "c", "p", "s", "g", "q", "r", "other crate"];
const VIS: [&str; 5] = ["", "pub(self)", "pub(super)", "pub(crate)", "pub"];
fn visible(vis: usize, loc: usize) -> bool {
    match vis {
        0 | 1 => loc < 2,
        2 => loc < 4,
        3 => loc < 7,
        _ => true,
    }
}
fn decl(tv: usize, fv: usize) -> String {
    let (t, f) = (VIS[tv], VIS[fv]);
    format!(
        "#[define_varlen] {t} struct Thing {{ {f} a: u32, #[controls_layout] {f} n: usize, #[varlen] {f} s: Str, #[varlen_array] {f} x: [u16; *n] }} pub fn mk() -> VBox<Thing> {{ loop {{}} }}"
    )
}
/// the whole tree with `body` at `loc`; `H` in the body stands for the module of the definition
fn tree(name: &str, decl: &str, loc: usize, body: &str) -> String {
    let u = "use varlen::prelude::*; use std::pin::Pin;";
    let at = |l: usize| if l == loc { format!("mod client {{ use varlen::prelude::*; use std::pin::Pin; }} {}", body.replace("H::", ["self::", "super::", "h::", "super::h::", "p::h::", "super::p::h::", "super::g::p::h::"][l])) } else { String::new() };
    format!(
        "mod {name} {{ pub mod g {{ {u} pub mod p {{ {u} pub mod h {{ {u} {decl} pub mod c {{ {u} {} }} {} }} pub mod s {{ {u} {} }} {} }} pub mod q {{ {u} {} }} {} }} pub mod r {{ {u} {} }} }}",
        at(1), at(0), at(3), at(2), at(5), at(4), at(6)
    )
}
struct Access {
    /// also needs the field's visibility
    field: bool,
    code: String,
}
fn accesses() -> Vec<Access> {
    let mut v = vec![];
    let mut put = |_what: &str, field, code: &str| v.push(Access { field, code: code.to_string() });
    put("the type", false, "fn t(_: VBox<H::Thing>) {}");
    put("the module", false, "use H::thing as m;");
    put("Refs", false, "fn t(_: H::thing::Refs<'_>) {}");
    put("Muts", false, "fn t(_: H::thing::Muts<'_>) {}");
    put("Init", false, "fn t<A, B>(_: H::thing::Init<A, B>) {}");
    put("LayoutControllers", false, "fn t(_: H::thing::LayoutControllers) {}");
    put("VarLenLayout", false, "fn t(_: H::thing::VarLenLayout) {}");
    put("refs()", false, "fn t() { let b = H::mk(); b.refs(); }");
    put("muts()", false, "fn t() { let mut b = H::mk(); b.as_mut().muts(); }");
    put("try_set_layout_controllers()", false, "fn t() { let mut b = H::mk(); b.as_mut().try_set_layout_controllers(loop {}); }");
    for f in ["a", "n", "s", "x"] {
        put("a field of the struct", true, &format!("fn t() {{ let b = H::mk(); let _ = &b.{f}; }}"));
        put("a field of refs()", true, &format!("fn t() {{ let b = H::mk(); let _ = b.refs().{f}; }}"));
        put("a field of muts()", true, &format!("fn t() {{ let mut b = H::mk(); let _ = b.as_mut().muts().{f}; }}"));
        put("a field of Refs", true, &format!("fn t(r: &H::thing::Refs<'_>) {{ let _ = &r.{f}; }}"));
        put("a field of Muts", true, &format!("fn t(r: &H::thing::Muts<'_>) {{ let _ = &r.{f}; }}"));
        put("a field of Init", true, &format!("fn t<A, B>(r: &H::thing::Init<A, B>) {{ let _ = &r.{f}; }}"));
    }
    put("a field of LayoutControllers", true, "fn t(r: &H::thing::LayoutControllers) { let _ = &r.n; }");
    put("building Init", true, "fn t() -> VBox<H::Thing> { VBox::new(H::thing::Init { a: 1, n: 2, s: Str::copy(\"x\"), x: FillSequentially(|i| i as u16) }) }");
    put("building LayoutControllers", true, "fn t() { let mut b = H::mk(); b.as_mut().try_set_layout_controllers(H::thing::LayoutControllers { n: 2 }); }");
    put("taking Refs apart", true, "fn t() { let b = H::mk(); let H::thing::Refs { a, n, s, x } = b.refs(); }");
    put("taking Muts apart", true, "fn t() { let mut b = H::mk(); let H::thing::Muts { a, n, s, x } = b.as_mut().muts(); }");
    v
}
fn visibility(loc: usize) -> Vec<Client> {
    let mut v = vec![];
    for tv in 0..VIS.len() {
        for fv in 0..VIS.len() {
            for a in accesses() {
                let accept = visible(tv, loc) && (!a.field || visible(fv, loc));
                let name = format!("t{}", v.len());
                let text = if loc < 7 {
                    tree(&name, &decl(tv, fv), loc, &a.code)
                } else {
                    format!("mod {name} {{ use varlen::prelude::*; use std::pin::Pin; {} }}", a.code.replace("H::", &format!("decl::d{tv}{fv}::g::p::h::")))
                };
                v.push(Client { accept, text });
            }
        }
    }
    v
}

/// every definition of the grid, as another crate
fn decls() -> String {
    let mut s = format!("{PRELUDE}extern crate varlen;\n");
    for tv in 0..VIS.len() {
        for fv in 0..VIS.len() {
            s += &tree(&format!("d{tv}{fv}"), &decl(tv, fv), 7, "").replacen("mod", "pub mod", 1);
            s += "\n";
        }
    }
    for (k, w) in wrapper_vis().iter().enumerate() {
        s += &tree(&format!("w{k}"), &wrapper(w), 7, "").replacen("mod", "pub mod", 1);
        s += "\n";
    }
    s
}

// -------------------------------------------------- each field with its own visibility, in every order
/// (name, attribute, type)
const FIELDS: [(&str, &str, &str); 4] = [("a", "", "u32"), ("n", "#[controls_layout]", "usize"), ("s", "#[varlen]", "Str"), ("x", "#[varlen_array]", "[u16; *n]")];
fn orders() -> Vec<Vec<usize>> {
    let mut v = vec![];
    for c in 0..256 {
        let p = [c & 3, c >> 2 & 3, c >> 4 & 3, c >> 6];
        if (0..4).all(|k| p.contains(&k)) {
            v.push(p.to_vec());
        }
    }
    v
}
fn mixed(t: Tier) -> Vec<Client> {
    let mut v = vec![];
    let all = orders();
    let some: Vec<usize> = if t == Tier::Quick { vec![0, 9, 16, 23] } else { (0..24).collect() };
    for o in some {
        for m in 0..16 {
            let vis = |f: usize| if m >> f & 1 == 1 { "pub" } else { "" };
            let fields: Vec<String> = all[o].iter().map(|&f| format!("{} {} {}: {}", FIELDS[f].1, vis(f), FIELDS[f].0, FIELDS[f].2)).collect();
            let d = format!("use varlen::prelude::*; #[define_varlen] pub struct Thing {{ {} }} pub fn mk() -> VBox<Thing> {{ loop {{}} }}", fields.join(", "));
            for (f, (n, _, _)) in FIELDS.iter().enumerate() {
                let mut put = |accept: bool, code: String| {
                    let text = format!("mod t{} {{ mod h {{ {d} }} {} }}", v.len(), code);
                    v.push(Client { accept, text });
                };
                let ok = m >> f & 1 == 1;
                put(ok, format!("fn t() {{ let b = h::mk(); let _ = &b.{n}; }}"));
                put(ok, format!("fn t() {{ let b = h::mk(); let _ = b.refs().{n}; }}"));
                put(ok, format!("fn t() {{ let mut b = h::mk(); let _ = b.as_mut().muts().{n}; }}"));
                put(ok, format!("fn t<A, B>(r: &h::thing::Init<A, B>) {{ let _ = &r.{n}; }}"));
                if f == 1 {
                    put(ok, format!("fn t(r: &h::thing::LayoutControllers) {{ let _ = &r.{n}; }}"));
                } else {
                    put(false, format!("fn t(r: &h::thing::LayoutControllers) {{ let _ = &r.{n}; }}"));
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------------------- what the views give
fn views() -> Vec<Client> {
    let mut v = vec![];
    let elem = ["u32", "usize", "Str", "[u16]"];
    let ways = ["&b.F", "b.refs().F", "b.as_mut().muts().F"];
    for (f, (n, _, _)) in FIELDS.iter().enumerate() {
        for (w, way) in ways.iter().enumerate() {
            for (e, el) in elem.iter().enumerate() {
                for (r, mk) in ["&E", "&mut E", "Pin<&mut E>", "Pin<&E>", "*mut E", "Box<E>"].iter().enumerate() {
                    let accept = e == f
                        && match (f, w, r) {
                            // the tail is not a field of the header
                            (2, 0, _) | (3, 0, _) => false,
                            (_, 0, 0) | (_, 1, 0) => true,
                            // `&mut` also serves as `&` and `*mut`
                            (0, 2, 0 | 1 | 4) | (3, 2, 0 | 1 | 4) => true,
                            (1, 2, 0) => true,
                            (2, 2, 2) => true,
                            _ => false,
                        };
                    let text = format!(
                        "mod t{} {{ use varlen::prelude::*; use std::pin::Pin; {} fn t(mut b: VBox<Thing>) {{ let v: {} = {}; }} }}",
                        v.len(),
                        decl(4, 4),
                        mk.replace('E', el),
                        way.replace('F', n)
                    );
                    v.push(Client { accept, text });
                }
            }
        }
    }
    // the views of several fields at once, kept as long as the borrow of the object
    let mut put = |accept: bool, code: &str| {
        let text = format!("mod t{} {{ use varlen::prelude::*; use std::pin::Pin; {} {} }}", v.len(), decl(4, 4), code);
        v.push(Client { accept, text });
    };
    for (code, ok) in [
        ("fn t<'a>(b: &'a Thing) -> (&'a u32, &'a usize, &'a Str, &'a [u16]) { let r = b.refs(); (r.a, r.n, r.s, r.x) }", true),
        ("fn t<'a>(b: Pin<&'a mut Thing>) -> (&'a mut u32, &'a usize, Pin<&'a mut Str>, &'a mut [u16]) { let m = b.muts(); (m.a, m.n, m.s, m.x) }", true),
        ("fn t<'a>(b: &'a Thing) -> thing::Refs<'a> { b.refs() }", true),
        ("fn t<'a>(b: Pin<&'a mut Thing>) -> thing::Muts<'a> { b.muts() }", true),
        ("fn t<'a>(b: &'a Thing) -> thing::Refs<'static> { b.refs() }", false),
        ("fn t<'a>(b: Pin<&'a mut Thing>) -> thing::Muts<'static> { b.muts() }", false),
        ("fn t<'a>(b: &'a Thing) { b.muts(); }", false),
        ("fn t<'a>(b: &'a mut Thing) { b.muts(); }", false),
        ("fn t<'a>(b: Pin<&'a Thing>) { b.refs(); }", true),
        ("fn t<'a>(b: Pin<&'a mut Thing>) { b.try_set_layout_controllers(thing::LayoutControllers { n: 1 }).unwrap(); }", true),
        ("fn t<'a>(b: Pin<&'a mut Thing>) { let _: Result<(), varlen::macro_support::LayoutMismatch> = b.try_set_layout_controllers(thing::LayoutControllers { n: 1 }); }", true),
        ("fn t<'a>(b: &'a mut Thing) { b.try_set_layout_controllers(thing::LayoutControllers { n: 1 }); }", false),
        ("fn t<'a>(b: &'a Thing) { b.try_set_layout_controllers(thing::LayoutControllers { n: 1 }); }", false),
        ("fn t<I: varlen::Initializer<Thing>>(i: I) {} fn u() { t(thing::Init { a: 1, n: 1, s: Str::copy(\"\"), x: [1] }) }", false),
        ("fn t<I: varlen::Initializer<Thing>>(i: I) {} fn u() { t(thing::Init { a: 1, n: 1, s: Str::copy(\"\"), x: FillSequentially(|i| i as u16) }) }", true),
        ("fn t<I: varlen::Initializer<Thing>>(i: I) {} fn u() { t(thing::Init { a: 1, n: 1, s: Array::<u8>::copy(&[]), x: FillSequentially(|i| i as u16) }) }", false),
        ("fn t<I: varlen::Initializer<Thing>>(i: I) {} fn u() { t(thing::Init { a: 1, n: 1, s: Str::copy(\"\"), x: FillSequentially(|i| i as u32) }) }", false),
        ("fn t<I: varlen::Initializer<Thing>>(i: I) {} fn u() { t(thing::Init { a: 1, s: Str::copy(\"\"), x: FillSequentially(|i| i as u16) }) }", false),
        ("fn t<I: varlen::Initializer<Thing>>(i: I) {} fn u() { t(thing::Init { a: 1, n: 1, s: Str::copy(\"\") }) }", false),
        ("fn t<I: varlen::Initializer<Thing>>(i: I) {} fn u() { t(Thing { a: 1, n: 1, s: loop {}, x: loop {} }) }", false),
    ] {
        put(ok, code);
    }
    v
}

// ------------------------------------------------------------------ definitions that must be refused
fn definitions() -> Vec<Client> {
    let mut v = vec![];
    let mut put = |accept: bool, code: String| {
        let text = format!("mod t{} {{ pub mod inner {{ use varlen::prelude::*; {} }} }}", v.len(), code);
        v.push(Client { accept, text });
    };
    // what it is put on
    put(true, "#[define_varlen] struct T { a: u8 }".into());
    put(true, "#[define_varlen] struct T { #[varlen] s: Str }".into());
    for t in ["struct T(u8);", "struct T(#[varlen] Str);", "struct T;", "enum T { A { a: u8 }, B }", "enum T {}", "union T { a: u8, b: u8 }", "fn t() {}", "mod m {}", "const T: u8 = 0;", "type T = u8;", "trait T {}", "static T: u8 = 0;", "use std::pin::Pin;"] {
        put(false, format!("#[define_varlen] {t}"));
    }
    // every set of field attributes, in every order
    let at = ["#[varlen]", "#[varlen_array]", "#[controls_layout]"];
    // a type that suits the attribute by itself
    let suits = ["Str", "[u8; 2]", "u8"];
    for (k, a) in at.iter().enumerate() {
        put(true, format!("#[define_varlen] struct T {{ {a} f: {} }}", suits[k]));
        for b in at {
            for t in suits {
                put(false, format!("#[define_varlen] struct T {{ {a} {b} f: {t} }}"));
                put(false, format!("#[define_varlen] struct T {{ #[varlen] s: Str, {a} {b} f: {t} }}"));
                for c in at {
                    put(false, format!("#[define_varlen] struct T {{ {a} {b} {c} f: {t} }}"));
                }
            }
            put(false, format!("#[define_varlen] struct T {{ {a} #[allow(unused)] {b} f: {} }}", suits[k]));
        }
    }
    // `#[varlen_array]` is for arrays
    for t in ["u8", "[u8]", "&'static [u8]", "&'static [u8; 2]", "Vec<u8>", "Array<u8>", "([u8; 2],)", "(u8, u8)", "*const [u8; 2]", "Str", "fn([u8; 2])", "[u8; 2] + Send"] {
        put(false, format!("#[define_varlen] struct T {{ #[varlen_array] x: {t} }}"));
    }
    put(true, "#[define_varlen] struct T { #[varlen_array] x: [[u8; 2]; 3] }".into());
    // `#[varlen]` is for types with the trait
    for (t, ok) in [("u8", false), ("[u8; 2]", false), ("String", false), ("str", false), ("Vec<u8>", false), ("VBox<Str>", false), ("Seq<Str>", false), ("Str", true), ("Str<u8>", true), ("Array<u8>", true), ("Array<String, u16>", true), ("FixedLen<Vec<u8>>", true), ("varlen::tuple::Tup2<Str, Array<u8>>", true), ("&'static Str", false), ("Option<Str>", false)] {
        put(ok, format!("#[define_varlen] struct T {{ #[varlen] s: {t} }}"));
    }
    // visibility of the definition and of each kind of field
    for vis in ["", "pub", "pub(crate)", "pub(self)", "pub(super)", "pub(in super)", "pub(in self)", "pub(in super::super)", "pub(in crate)"] {
        // the same scopes spelled with `in` may or may not be understood; another scope must be refused
        let ok = match vis {
            "pub(in super::super)" => false,
            v if v.starts_with("pub(in") => continue,
            _ => true,
        };
        put(ok, format!("#[define_varlen] {vis} struct T {{ a: u8, #[varlen] s: Str }}"));
        for (n, a, t) in FIELDS {
            put(ok, format!("#[define_varlen] pub struct T {{ {a} {vis} {n}: {} }}", t.replace("*n", "3")));
            put(ok, format!("#[define_varlen] pub struct T {{ #[controls_layout] pub k: u8, {a} {vis} {n}: {}, #[varlen] pub z: Str }}", t.replace("*n", "*k as usize")));
        }
    }
    // what a length may be
    let pre = "const OUT: usize = 4; static ST: usize = 4; type Al = u16; const fn half(x: usize) -> usize { x / 2 } fn run(x: usize) -> usize { x }";
    for (e, ok) in [
        ("3", true), ("OUT", true), ("*n", true), ("*n * OUT", true), ("half(*n)", true), ("(*n) / 2 + *m as usize", true), ("if *n > 3 { 3 } else { *n }", true),
        ("{ let k = *n; k + 1 }", true), ("match *m { 0 => 1, _ => 2 }", true), ("{ let mut i = 0; while i < *n { i += 2; } i }", true), ("std::mem::size_of::<Al>() * *n", true),
        ("run(*n)", false), ("*a", false), ("a", false), ("*s", false), ("s.len()", false), ("*y", false), ("self.n", false), ("n", false), ("*m", false), ("\"x\"", false), ("-1", false),
        ("*q as usize", false), ("ST_MISSING", false), ("vec![1].len()", false), ("*n as u32", false), ("*n +", false), ("", false), ("Box::new(*n).abs_diff(1)", false),
    ] {
        put(ok, format!("{pre} #[define_varlen] struct T {{ #[controls_layout] n: usize, #[controls_layout] m: u8, a: usize, q: u8, #[varlen] s: Str, #[varlen_array] y: [u8; 1], #[varlen_array] x: [Al; {e}] }}"));
        put(ok, format!("{pre} #[define_varlen] struct T {{ #[varlen_array] x: [Al; {e}], #[varlen_array] y: [u8; 1], #[varlen] s: Str, q: u8, a: usize, #[controls_layout] m: u8, #[controls_layout] n: usize }}"));
    }
    // impls that the definition already has
    for (i, ok) in [
        ("impl Drop for T { fn drop(&mut self) {} }", false),
        ("impl Unpin for T {}", false),
        ("impl T { fn refs(&self) {} }", false),
        ("impl T { fn muts(&self) {} }", false),
        ("mod t {}", false),
        ("impl T { fn other(&self) -> &str { &self.refs().s[..] } }", true),
        ("impl Clone for T { fn clone(&self) -> T { loop {} } }", true),
        ("impl PartialEq for T { fn eq(&self, o: &T) -> bool { self.a == o.a && self.refs().s[..] == o.refs().s[..] } }", true),
        ("impl std::fmt::Debug for T { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.refs().s[..]) } }", true),
    ] {
        put(ok, format!("#[define_varlen] struct T {{ a: u8, #[varlen] s: Str }} {i}"));
    }
    // attributes of the definition and of fields are kept
    for (d, ok) in [
        ("#[define_varlen] #[repr(C)] struct T { a: u8, #[varlen] s: Str<u8> } const _: () = assert!(std::mem::size_of::<T>() == 1);", true),
        ("#[define_varlen] #[repr(C, align(16))] struct T { a: u8, #[varlen] s: Str<u8> } const _: () = assert!(std::mem::align_of::<T>() == 16 && <T as varlen::VarLen>::ALIGN == 16);", true),
        ("#[define_varlen] #[repr(align(32))] struct T { a: u8, #[varlen] s: Str<u8> } const _: () = assert!(std::mem::align_of::<T>() == 32);", true),
        ("#[define_varlen] #[repr(C, packed)] struct T { a: u8, b: u32, #[varlen] s: Str<u8> }", false),
        ("#[repr(align(32))] #[define_varlen] struct T { a: u8, #[varlen] s: Str<u8> } const _: () = assert!(std::mem::align_of::<T>() == 32);", true),
        ("#[define_varlen] #[must_use] #[doc(hidden)] #[allow(dead_code)] struct T { #[allow(dead_code)] #[doc = \"x\"] a: u8, #[doc = \"y\"] #[varlen] s: Str<u8> }", true),
        ("#[define_varlen] /** doc */ struct T { /** doc */ a: u8, #[varlen] /** doc */ s: Str<u8>, #[controls_layout] /** doc */ n: u8, /** doc */ #[varlen_array] x: [u8; *n as usize] }", true),
        ("#[define_varlen] #[derive(Debug)] struct T { a: u8, #[varlen] s: Str }", false),
        ("#[define_varlen] #[derive(Clone, Copy)] struct T { a: u8, #[varlen] s: Str }", false),
        ("#[define_varlen] #[no_such_attribute] struct T { a: u8 }", false),
        ("#[define_varlen] struct T { #[no_such_attribute] a: u8 }", false),
        ("#[define_varlen] struct T { #[varlen] s: Str, s: u8 }", false),
    ] {
        put(ok, d.into());
    }
    // generics
    for (d, a) in [
        ("T<P = u16> { #[varlen] s: Array<P> }", "T<u8>"),
        ("T<P: Copy = u16> { #[varlen] s: Array<P> }", "T<u8>"),
        ("T<P: Copy + Clone = u16> { #[controls_layout] n: usize, #[varlen_array] x: [P; *n] }", "T<u8>"),
        ("T<P = u16> { a: u8, #[varlen] s: Array<Option<P>>, #[varlen] t: Str }", "T<u8>"),
        ("T<P = u16> where P: Clone { #[varlen] s: Array<P>, a: u32 }", "T<u8>"),
        ("T<P: varlen::VarLen = Str> { #[varlen] s: P }", "T<Array<u64>>"),
        ("T<P: varlen::VarLen = Str> { a: u8, #[varlen] s: varlen::tuple::Tup2<P, Str>, #[varlen] u: P }", "T<Array<u64>>"),
        ("T<const N: usize = 3> { #[controls_layout] n: usize, #[varlen_array] x: [[u8; N]; *n] }", "T<5>"),
        ("T<P = u16, Q = u8> { #[varlen] s: Array<P>, #[varlen] t: Array<Q, u8> }", "T<u8, String>"),
    ] {
        for tail in ["fn t(mut b: VBox<A>) { b.refs(); b.as_mut().muts(); }", "fn t(q: Seq<A>) { for e in q.iter() { e.refs(); } }", "fn t<'a>(r: &'a A) -> <A as varlen::VarLen>::Layout { <A as varlen::VarLen>::calculate_layout(r) }"] {
            put(true, format!("#[define_varlen] struct {d} type A = {a}; {tail}"));
        }
    }
    put(false, "#[define_varlen] struct T<P = u16> { #[varlen] s: P }".into());
    put(false, "#[define_varlen] struct T<P: varlen::VarLen = Str> { #[varlen] s: P } fn t(b: VBox<T<u8>>) {}".into());
    v
}

// --------------------------------------------------------------------------- the name of the module
/// Words start at a capital after a small letter, and at a capital before a small letter.
fn snake(name: &str) -> String {
    let c: Vec<char> = name.chars().collect();
    let mut o = String::new();
    for i in 0..c.len() {
        if i > 0 && c[i].is_uppercase() && (c[i - 1].is_lowercase() || c.get(i + 1).map_or(false, |n| n.is_lowercase())) {
            o.push('_');
        }
        o.extend(c[i].to_lowercase());
    }
    o
}
fn names(t: Tier) -> Vec<Client> {
    let mut v = vec![];
    let mut put = |name: &str| {
        let m = snake(name);
        if ["as", "do", "if", "in", "fn", "priv"].contains(&m.as_str()) {
            return;
        }
        let text = format!("mod t{} {{ pub mod inner {{ use varlen::prelude::*; #[define_varlen] pub struct {name} {{ a: u8, #[varlen] s: Str }} pub fn t() -> VBox<{name}> {{ VBox::new({m}::Init {{ a: 1, s: Str::copy(\"\") }}) }} }} pub use inner::{m}::{{Refs, Muts, Init, LayoutControllers, VarLenLayout}}; }}", v.len());
        v.push(Client { accept: true, text });
    };
    let mut level: Vec<String> = vec!["A".into(), "B".into()];
    for _ in 0..t.pick(4, 6) {
        for n in &level {
            put(n);
        }
        level = level.iter().flat_map(|n| ["A", "B", "c"].map(|x| format!("{n}{x}"))).collect();
    }
    for n in ["Person", "MultipleArrays", "HttpServer", "ABigName", "AVeryLongNameOfAType", "LRUCache"] {
        put(n);
    }
    v
}

// -------------------------------------------------------------------------------- wrapper definitions
/// visibilities of: the struct, its field, the initializer, its field, the shared and the mutable view
fn wrapper(v: &[usize; 6]) -> String {
    let [t, f, i, g, r, m] = v.map(|k| VIS[k]);
    format!(
        "varlen::define_varlen_newtype! {{ #[repr(transparent)] #[doc = \"x\"] {t} struct Wrap({f} Str); with init: #[doc = \"y\"] {i} struct WrapInit<_>({g} _); with inner_ref: #[doc = \"z\"] {r} fn view(&self) -> &_; with inner_mut: #[doc = \"w\"] {m} fn view_mut(self: _) -> _; }} pub fn mk() -> VBox<Wrap> {{ loop {{}} }}"
    )
}
fn wrapper_vis() -> Vec<[usize; 6]> {
    let mut v = vec![];
    for slot in 0..6 {
        for x in 0..VIS.len() {
            for others in [4, 0] {
                let mut w = [others; 6];
                w[slot] = x;
                if !v.contains(&w) {
                    v.push(w);
                }
            }
        }
    }
    v
}
fn wrappers(loc: usize) -> Vec<Client> {
    let mut v = vec![];
    // (which visibilities it takes, program)
    let acc: [(&[usize], &str); 9] = [
        (&[0], "fn t(_: VBox<H::Wrap>) {}"),
        (&[0, 1], "fn t(b: &H::Wrap) -> &Str { &b.0 }"),
        (&[2], "fn t<A>(_: H::WrapInit<A>) {}"),
        (&[2, 3], "fn t<A>(i: H::WrapInit<A>) -> A { i.0 }"),
        (&[0, 2, 3], "fn t() -> VBox<H::Wrap> { VBox::new(H::WrapInit(Str::copy(\"x\"))) }"),
        (&[0, 4], "fn t(b: &H::Wrap) -> &Str { b.view() }"),
        (&[0, 4], "fn t() { let b = H::mk(); let _: &Str = b.view(); }"),
        (&[0, 5], "fn t<'a>(b: Pin<&'a mut H::Wrap>) -> Pin<&'a mut Str> { b.view_mut() }"),
        (&[0, 5], "fn t() { let mut b = H::mk(); let _: Pin<&mut Str> = b.as_mut().view_mut(); }"),
    ];
    for (k, w) in wrapper_vis().iter().enumerate() {
        for (needs, code) in &acc {
            let accept = needs.iter().all(|&s| visible(w[s], loc));
            let name = format!("t{}", v.len());
            let text = if loc < 7 { tree(&name, &wrapper(w), loc, code) } else { format!("mod {name} {{ use varlen::prelude::*; use std::pin::Pin; {} }}", code.replace("H::", &format!("decl::w{k}::g::p::h::"))) };
            v.push(Client { accept, text });
        }
    }
    v
}

// ------------------------------------------------------------ what else is in scope of the definition
fn surroundings() -> Vec<Client> {
    let mut v = vec![];
    let structs = [
        "#[varlen::define_varlen] pub struct Thing { a: ::core::primitive::u8, #[varlen] s: ::varlen::Str, #[varlen_array] x: [u16; 3], #[varlen] z: ::varlen::Array<f32> }",
        "#[varlen::define_varlen] pub struct Thing { #[controls_layout] n: ::core::primitive::u8, #[varlen_array] x: [u16; 2], #[varlen] s: ::varlen::FixedLen<f32> }",
        "#[varlen::define_varlen] pub struct Thing { a: ::core::primitive::u8 }",
        "varlen::define_varlen_newtype! { #[repr(transparent)] pub struct Thing(::varlen::Str); with init: pub struct ThingInit<_>(_); with inner_ref: fn view(&self) -> &_; with inner_mut: fn view_mut(self: _) -> _; }",
        "varlen::define_varlen_newtype! { #[repr(transparent)] pub struct Thing<(T: ::core::clone::Clone)>(::varlen::Array<T>); with signature: impl<(T: ::core::clone::Clone)> Thing<(T)> { _ } with init: pub struct ThingInit<_>(_); with inner_ref: fn view(&self) -> &_; with inner_mut: fn view_mut(self: _) -> _; }",
        "struct MyInit(::varlen::array::SizedInit<::varlen::array_init::MoveFrom<f32, 2>>); varlen::impl_initializer_as_newtype! { impl Initializer<::varlen::Array<f32>> for MyInit { _ } }",
        "struct MyInit<I>(I); varlen::impl_initializer_as_newtype! { impl<(I: ::varlen::Initializer<::varlen::Str>)> Initializer<::varlen::Str> for MyInit<I> { _ } }",
    ];
    let mut put = |code: String| {
        let text = format!("mod t{} {{ pub mod inner {{ {} }} }}", v.len(), code);
        v.push(Client { accept: true, text });
    };
    // names that the generated code might mean
    for st in structs {
        put(st.into());
        put(format!("use varlen::prelude::*; {st}"));
        for n in [
            "Option", "Some", "None", "Result", "Ok", "Err", "Drop", "Unpin", "Pin", "PhantomPinned", "PhantomData", "NonNull", "MaybeUninit", "Sync", "VarLen", "Layout", "Initializer", "ArrayInitializer", "FieldMarker", "ArrayMarker", "VClone", "LayoutMismatch",
            "UnpinIf", "Self_", "Outer", "Inner", "Init_",
        ] {
            put(format!("pub struct {n}; {st}"));
            put(format!("pub trait {n} {{}} {st}"));
        }
        for n in ["ref_field", "mut_field", "init_field", "ref_array", "mut_array", "init_array", "drop_array", "vdrop_field", "array_max", "cat_field_fast", "cat_field_cautious", "size_of", "align_of", "needs_drop", "drop_in_place", "write", "replace", "invalid_drop_call", "assert_sync", "drop"] {
            put(format!("pub fn {n}() {{}} {st}"));
            put(format!("pub mod {n} {{}} {st}"));
        }
        for n in ["core", "std", "varlen", "macro_support", "marker", "mem", "ptr", "pin", "option", "array_init"] {
            // (the definitions themselves are named through `varlen`, so through the crate)
            put(format!("pub mod {n} {{}} {}", st.replacen("varlen::define", "::varlen::define", 1).replacen("varlen::impl_init", "::varlen::impl_init", 1)));
        }
        // methods of the same names that every type has
        for (m, sig) in [("calculate_layout", "&self"), ("calculate_layout_cautious", "&self"), ("initialize", "self"), ("initialize", "&self"), ("vdrop", "self"), ("size", "&self"), ("cast", "self"), ("as_ptr", "self"), ("as_ref", "&self"), ("get_ref", "self"), ("get_unchecked_mut", "self"), ("map_unchecked_mut", "self"), ("refs", "&self"), ("muts", "self"), ("clone", "&self"), ("deref", "&self"), ("drop", "&mut self")] {
            put(format!("pub trait Every {{ fn {m}({sig}) where Self: ::core::marker::Sized {{}} }} impl<T> Every for T {{}} {st}"));
        }
    }
    // methods of the same names on the types that the definitions are about
    let methods: [(&str, &str); 9] = [
        ("calculate_layout", "&self"), ("calculate_layout_cautious", "&self"), ("initialize", "self"), ("initialize", "&self"), ("vdrop", "&self"), ("vdrop", "self: ::core::pin::Pin<&mut Self>"), ("size", "&self"), ("deref", "&self"), ("get_ref", "&self"),
    ];
    for (m, sig) in methods {
        let bad = format!("fn {m}({sig}) {{}}");
        put(format!("use varlen::prelude::*; {} impl Thing {{ {bad} }}", decl(4, 4)));
        put(format!("use varlen::prelude::*; #[define_varlen] pub struct Part {{ #[varlen] s: Str }} impl Part {{ {bad} }} #[define_varlen] pub struct Thing {{ a: u8, #[varlen] p: Part, #[varlen] q: Part }}"));
        put(format!("use varlen::prelude::*; #[define_varlen] pub struct Part {{ #[varlen] s: Str }} impl Part {{ {bad} }} define_varlen_newtype! {{ #[repr(transparent)] pub struct Thing(Part); with init: pub struct ThingInit<_>(_); with inner_ref: fn view(&self) -> &_; with inner_mut: fn view_mut(self: _) -> _; }} impl<I> ThingInit<I> {{ {bad} }} impl Thing {{ {bad} }}"));
        put(format!("use varlen::prelude::*; struct My(SizedInit<MoveFrom<f32, 2>>); impl_initializer_as_newtype! {{ impl Initializer<Array<f32>> for My {{ _ }} }} impl My {{ {bad} }} struct Mine(My); impl_initializer_as_newtype! {{ impl Initializer<Array<f32>> for Mine {{ _ }} }}"));
        put(format!("use varlen::prelude::*; #[define_varlen] pub struct Part {{ #[varlen] s: Str }} impl Part {{ {bad} }} fn t(mut b: VBox<Tup2<Part, Part>>, q: Seq<Part>) {{ b.refs(); b.as_mut().muts(); for e in q.iter() {{}} }}"));
    }
    v
}

fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    for l in 0..7 {
        v.push(section(&format!("what is visible at {}", LOCS[l]), "c21", PRELUDE.into(), visibility(l)));
        v.push(section(&format!("what of a wrapper is visible at {}", LOCS[l]), "c21", PRELUDE.into(), wrappers(l)));
    }
    v.push(section_using("what is visible in another crate", "c21", PRELUDE.into(), Some(decls()), visibility(7)));
    v.push(section_using("what of a wrapper is visible in another crate", "c21", PRELUDE.into(), Some(decls()), wrappers(7)));
    v.push(section("each field by its own visibility", "c21", PRELUDE.into(), mixed(t)));
    v.push(section("what the views give", "c21", PRELUDE.into(), views()));
    v.push(section("definitions", "c21", PRELUDE.into(), definitions()));
    v.push(section("the module's name", "c21", PRELUDE.into(), names(t)));
    v.push(section("surroundings of a definition", "c21", PRELUDE.into(), surroundings()));
    v
}
fn main() {
    mc::driver::main(
        Meta {
            id: "C21",
            level: "model_checking",
            rule: "every client program of the grid is compiled against the freshly built library and the compiler's verdict compared with what the declaration says: (visibility of the definition x visibility of its fields x place of the client in the module tree or in another crate x way of naming each generated type, method and field), (order of the kinds of field x each field's own visibility x way of naming it), (field x view x candidate type), (misused definitions: item kinds, attribute combinations, types, visibilities, length expressions, clashing impls), kept attributes, generic parameters, names of definitions",
            bounds: "5 x 5 visibilities, 8 places, 39 ways of naming; 4 of the 24 field orders (all, thorough) x 16 visibility vectors; 3 views x 24 candidate types per kind of field; 352 definitions; all names of up to 4 letters (6, thorough) over two capitals and a small letter".into(),
            assumptions: &["names with digits or underscores are not judged (how they turn into snake case is the convention of another crate)"],
        },
        secs,
    );
}
