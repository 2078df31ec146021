use mc::alloc::{host, lib};
use mc::driver::*;
use mc::explore::*;
use mc::place::cells;
use mc::sim::*;
use mc::subj::*;
use mc::zoo::{shapes_upto, W, WInit};
use mc::gcheck_eq;
use std::pin::Pin;
use varlen::seq::Seq;
use varlen::{Initializer, Layout, Owned, VBox};

/// Where the object is. Lean on purpose: this is instantiated for every generated struct.
enum At<'e, T: Ctl> {
    Box(VBox<T>),
    Own(Owned<'e, T>),
    /// the middle one of three; the value of the others
    Seq(Seq<T>, Val),
}
impl<'e, T: Ctl> At<'e, T> {
    fn put<I: Initializer<T>>(p: usize, i: I, small: &[usize], env: &'e Env) -> Self {
        match p {
            0 => At::Box(lib(|| VBox::new(i))),
            1 => {
                env.guard();
                let o = lib(|| Owned::new_in(i, &env.bump));
                env.guard();
                At::Own(o)
            }
            _ => {
                let v = host(|| T::make(small, 0x1234));
                let (a, b) = host(|| (T::direct(&v, &mut |_| 0, env), T::direct(&v, &mut |_| 0, env)));
                let mut s = lib(|| Seq::new());
                lib(|| {
                    s.push(a);
                    s.push(i);
                    s.push(b);
                });
                At::Seq(s, v)
            }
        }
    }
    fn name(&self) -> &'static str {
        match self {
            At::Box(_) => "box",
            At::Own(_) => "arena",
            At::Seq(..) => "sequence",
        }
    }
    fn with<R>(&self, f: &mut dyn FnMut(&T) -> R) -> R {
        match self {
            At::Box(b) => f(b),
            At::Own(o) => f(o),
            At::Seq(s, _) => match s.iter().nth(1) {
                Some(e) => f(e),
                None => mc::fail!("the element is gone"),
            },
        }
    }
    fn with_mut<R>(&mut self, f: &mut dyn FnMut(Pin<&mut T>) -> R) -> R {
        match self {
            At::Box(b) => f(b.as_mut()),
            At::Own(o) => f(o.as_mut()),
            At::Seq(s, _) => match s.iter_mut().nth(1) {
                Some(e) => f(e),
                None => mc::fail!("the element is gone"),
            },
        }
    }
    fn around(&self) -> i64 {
        match self {
            At::Seq(_, v) => 2 * tokens::<T>(v),
            _ => 0,
        }
    }
    fn check(&self, v: &Val, env: &Env, what: &str) {
        op();
        let at = self.name();
        let lens = host(|| lens_of::<T>(v));
        self.with(&mut |t| look(t, v, &lens, at, what));
        if let At::Seq(s, nv) = self {
            gcheck_eq!(CONTENT, s.len(), 3, "elements of the sequence");
            for (i, e) in s.iter().enumerate() {
                if i != 1 {
                    let got = read::<T>(e);
                    gcheck_eq!(CONTENT, &got, nv, "neighbour {} in the sequence {}", i, what);
                    host(|| drop(got));
                }
            }
        }
        expect_live(env, tokens::<T>(v) + self.around(), what);
        env.check_guards();
        stop_if_violated();
        let mut h = H::new(11);
        for l in v {
            h.u(l.len() as u64);
            for c in l {
                h.u(*c);
            }
        }
        h.bytes(at.as_bytes());
        state(h.get(), 0);
        host(|| drop(lens));
    }
}
fn look<T: Ctl>(t: &T, v: &Val, lens: &[usize], at: &str, what: &str) {
    let got = read::<T>(t);
    gcheck_eq!(CONTENT, &got, v, "fields of {} in a {} {}", T::name(), at, what);
    host(|| {
        let mut want = vec![];
        let size = T::r_layout(lens, 0, &mut want);
        let mut parts = vec![];
        t.parts(&mut parts);
        let p = t as *const T as usize;
        for q in &mut parts {
            q.0 = q.0.wrapping_sub(p);
        }
        // header fields are placed by the compiler; the reference takes their offsets from it
        gcheck_eq!(LAYOUT, &parts, &want, "(offset, bytes) of the fields of {} in a {} {}", T::name(), at, what);
        gcheck_eq!(LAYOUT, t.calculate_layout().size(), size, "size of {} in a {} {}", T::name(), at, what);
        gcheck_eq!(LAYOUT, T::ALIGN, T::r_align(), "ALIGN of {}", T::name());
        let c: Vec<u64> = T::ctl_leaves().into_iter().map(|l| v[l][0]).collect();
        gcheck_eq!(CONTENT, t.ctl_direct(), c, "length-controlling fields of {} read directly in a {} {}", T::name(), at, what);
    });
    stop_if_violated();
}

fn body<T: Ctl>(shapes: &[Vec<usize>], deep: bool) {
    let lens = &shapes[choose(shapes.len())];
    let small = &shapes[0];
    let env = Env::new();
    {
        let mut v = host(|| T::make(lens, 0x77));
        let route = choose(ROUTES);
        log(|| format!("{} with part lengths {:?} from {}", T::name(), lens, ["values", "a box", "an arena object", "a clone"][route]));
        // what each part is built from: first possibility for all, or another one for one part
        let init: AnyInit<T> = any_route(route, &v, &mut |n| choose_dev(n), &env);
        let want = r_size::<T>(lens);
        let got = init.calculate_layout_cautious().map(|l| l.size());
        gcheck_eq!(LAYOUT, got, Some(want), "size of {} announced by its initializer with part lengths {:?}", T::name(), lens);
        let place = choose(3);
        let mut a = At::put(place, init, small, &env);
        a.check(&v, &env, "after construction");
        if dev_used() == 0 {
            match choose(if deep { 5 } else { 4 }) {
                0 => {}
                1 => {
                    // through every mutable field at once
                    let mut f = |l: usize, i: usize, x: u64| x.rotate_left(7) ^ (0x91 + l as u64 * 13 + i as u64);
                    host(|| model_set_all::<T>(&mut v, &mut f));
                    let ctl = a.with_mut(&mut |t| host(|| t.ctl_muts()));
                    let c: Vec<u64> = host(|| T::ctl_leaves().into_iter().map(|l| v[l][0]).collect());
                    gcheck_eq!(CONTENT, &ctl, &c, "length-controlling fields seen through the mutable view");
                    a.with_mut(&mut |t| lib(|| t.set_all(0, &mut f)));
                    a.check(&v, &env, "after writing all fields");
                    host(|| drop((ctl, c)));
                }
                2 => {
                    // one cell of one field
                    let cs = cells::<T>(&v);
                    if !cs.is_empty() {
                        let (l, i) = cs[choose(cs.len())];
                        let x = v[l][i] ^ 0x1535_3535;
                        log(|| format!("write cell {} of part {}", i, l));
                        host(|| model_set::<T>(&mut v, l, i, x));
                        a.with_mut(&mut |t| lib(|| t.set(l, i, x)));
                        a.check(&v, &env, "after writing one field");
                    }
                    host(|| drop(cs));
                }
                3 => {
                    // into another place, by the initializer route
                    let to = choose(3);
                    log(|| format!("move from the {} into place {}", a.name(), to));
                    match a {
                        At::Box(b) => a = At::put(to, b, small, &env),
                        At::Own(o) => a = At::put(to, o, small, &env),
                        At::Seq(mut s, nv) => {
                            let mut b = None;
                            {
                                let mut it = lib(|| s.take_elems());
                                lib(|| drop(it.next()));
                                match lib(|| it.next()) {
                                    Some(o) => b = Some(At::put(to, o, small, &env)),
                                    None => mc::fail!("the element is gone"),
                                }
                                lib(|| drop(it));
                            }
                            lib(|| drop(s));
                            host(|| drop(nv));
                            a = b.unwrap();
                        }
                    }
                    a.check(&v, &env, "after moving it");
                }
                _ => {
                    // clones made, thrown away, or kept
                    let mut c = None;
                    a.with(&mut |t| {
                        if let Some(k) = t.clo() {
                            lib(|| drop(k));
                        }
                        if let Some(k) = t.clo() {
                            c = Some(lib(|| VBox::new(k)));
                        }
                    });
                    if let Some(c) = c {
                        log(|| "clone kept while the original goes".into());
                        lib(|| drop(a));
                        a = At::Box(c);
                    }
                    a.check(&v, &env, "cloned");
                }
            }
        }
        lib(|| drop(a));
        expect_live(&env, 0, "after destroying it");
        // an initializer never used
        let init: AnyInit<T> = host(|| any_route(route, &v, &mut |_| 0, &env));
        lib(|| drop(init));
        expect_live(&env, 0, "after dropping an unused initializer");
        // inside a wrapper, which destroys it only if it says that it needs to be
        let init: AnyInit<T> = host(|| any_route(route, &v, &mut |_| 0, &env));
        let w: VBox<W<T>> = lib(|| VBox::new(WInit(init)));
        expect_live(&env, tokens::<T>(&v), "wrapped");
        lib(|| drop(w));
        expect_live(&env, 0, "after destroying a wrapper of it");
        host(|| drop(v));
    }
    drop(env);
}
fn add<T: Ctl>(v: &mut Vec<Section>, cap: usize) {
    let sh = shapes_upto::<T>(cap);
    v.push(Section { name: format!("{} ({} shapes)", T::name(), sh.len()), dev: 1, body: Box::new(move || body::<T>(&sh, true)) });
}
#[cfg(feature = "gen4")]
use add as add4;
fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    let cap = t.pick(200, 3000);
    mc::for_structs!(add, &mut v, cap);
    #[cfg(feature = "gen4")]
    mc::four_structs!(add4, &mut v, t.pick(40, 400));
    v
}
fn main() {
    set_mask(CONTENT | LAYOUT | TOK | TOKLEAK | CALLS);
    mc::driver::main(
        Meta {
            id: "C14",
            level: "model_checking",
            rule: "every generated struct definition x every vector of part lengths from the set x every hand-over route (values, box, arena, clone; one part at a time built from every other kind of source) x place (box, arena, middle of a sequence) x {nothing, write every field, write one cell, move into every other place, clone, wrap}: every field's value, length, address and extent, size, alignment, neighbours and the ledger of values, against an interpretation of the struct's specification independent of the macro",
            bounds: "159 struct definitions: all 84 orders of 1 to 3 fields of 4 kinds, 20 orders of 4 to 8 fields, 6 of 10 to 14 fields, 39 alignment and destructor ladders (also with a single destructible part of no size, with length-controlling fields that own something, with parts of no size and with parts aligned to 256 and 4096), 10 generic ones used with arguments other than the defaults; 9 plain, 6 controller, 11 variable, 11 array element types; 3 naming styles; repr(C) on some; part lengths up to 200 shapes per struct (3000 thorough); thorough adds all 256 orders of 4 fields".into(),
            assumptions: &[],
        },
        secs,
    );
}
