use mc::alloc::{host, lib};
use mc::driver::*;
use mc::explore::*;
use mc::subj::*;
use mc::sim::*;
use mc::tok::*;
use mc::{gcheck, gcheck_eq};
use std::pin::Pin;
use varlen::array_init::FillSequentially;
use varlen::prelude::*;
use varlen::seq::Seq;
use varlen::{define_varlen, Layout, Owned, VBox};

fn dom(t: &str, n: usize) -> Vec<u64> {
    let full: Vec<u64> = match t {
        "bool" => return vec![0, 1],
        "(u8, u8)" => {
            let k = [5, 4, 3, 2][n.clamp(1, 4) - 1];
            let mut v: Vec<u64> = (0..k).flat_map(|a| (0..k).map(move |b| a | b << 8)).collect();
            v.extend([255, 255 << 8, 0xffff]);
            return v;
        }
        "u8" => (0..=9).chain([16, 128, 254, 255]).collect(),
        "u16" | "CT" => (0..=9).chain([16, 255, 256, 32768, 65535]).collect(),
        _ => (0..=9).chain([16, 255, 256, 65535, 65536, 1 << 31]).collect(),
    };
    match n {
        1 => full,
        2 => full.iter().copied().filter(|&x| x <= 6 || x == 9 || x == *full.last().unwrap()).collect(),
        3 => full.iter().copied().filter(|&x| x <= 3 || x == 8 || x == *full.last().unwrap()).collect(),
        _ => full.iter().copied().filter(|&x| x <= 2 || x == *full.last().unwrap()).collect(),
    }
}
/// all tuples of controller values
fn tuples<T: Ctl>(tighter: usize) -> Vec<Vec<u64>> {
    let ts = T::ctl_types();
    let mut out = vec![vec![]];
    for t in &ts {
        let d = dom(t, ts.len() + tighter);
        out = out.into_iter().flat_map(|p: Vec<u64>| d.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect();
    }
    out
}
fn us(c: &[u64]) -> Vec<usize> {
    c.iter().map(|&x| x as usize).collect()
}
enum At<'e, T: Ctl> {
    Box(VBox<T>),
    Own(Owned<'e, T>),
    Seq(Seq<T>, Val),
}
impl<'e, T: Ctl> At<'e, T> {
    fn with_mut<R>(&mut self, f: &mut dyn FnMut(Pin<&mut T>) -> R) -> R {
        match self {
            At::Box(b) => f(b.as_mut()),
            At::Own(o) => f(o.as_mut()),
            At::Seq(s, _) => match s.iter_mut().nth(1) {
                Some(e) => f(e),
                None => mc::fail!("the element is gone"),
            },
        }
    }
    fn around(&self) -> i64 {
        match self {
            At::Seq(_, v) => 2 * tokens::<T>(v),
            _ => 0,
        }
    }
    fn check(&mut self, v: &Val, env: &Env, what: &str) {
        op();
        let lens = host(|| lens_of::<T>(v));
        let want = r_size::<T>(&lens);
        let c: Vec<u64> = host(|| T::ctl_leaves().into_iter().map(|l| v[l][0]).collect());
        self.with_mut(&mut |mut t| {
            let d = host(|| t.ctl_direct());
            gcheck_eq!(CONTENT, &d, &c, "length-controlling fields {}", what);
            let size = t.calculate_layout().size();
            gcheck_eq!(CONTENT, size, want, "size of {} {}", T::name(), what);
            let got = read::<T>(&t);
            gcheck_eq!(CONTENT, &got, v, "fields of {} {}", T::name(), what);
            let m = host(|| t.as_mut().ctl_muts());
            gcheck_eq!(CONTENT, &m, &c, "length-controlling fields in the mutable view {}", what);
            host(|| drop((d, got, m)));
        });
        if let At::Seq(s, nv) = self {
            gcheck_eq!(CONTENT, s.len(), 3, "elements of the sequence");
            for (i, e) in s.iter().enumerate() {
                if i != 1 {
                    let got = read::<T>(e);
                    gcheck_eq!(CONTENT, &got, nv, "neighbour {} in the sequence {}", i, what);
                    host(|| drop(got));
                }
            }
        }
        expect_live(env, tokens::<T>(v) + self.around(), what);
        env.check_guards();
        let mut h = H::new(5);
        for x in &c {
            h.u(*x);
        }
        for &x in &lens {
            h.u(x as u64);
        }
        state(h.get(), 0);
        host(|| drop((lens, c)));
        stop_if_violated();
    }
}
/// olds x news [x news x ...]
fn body<T: Ctl>(olds: &[Vec<u64>], news: &[Vec<u64>], depth: usize, places: usize) {
    let old = &olds[choose(olds.len())];
    let env = Env::new();
    {
        let lens = host(|| T::with_ctl(&us(old), 2));
        let mut v = host(|| T::make(&lens, 0x99));
        let mk = |v: &Val| host(|| T::direct(v, &mut |_| 0, &env));
        let i = mk(&v);
        let mut a = match choose(places) {
            0 => At::Box(lib(|| VBox::new(i))),
            1 => {
                let nv = host(|| T::make(&T::with_ctl(&us(&news[0]), 1), 0x88));
                let mut s = lib(|| Seq::new());
                let (x, y) = (mk(&nv), mk(&nv));
                lib(|| {
                    s.push(x);
                    s.push(i);
                    s.push(y);
                });
                At::Seq(s, nv)
            }
            _ => {
                env.guard();
                let o = lib(|| Owned::new_in(i, &env.bump));
                env.guard();
                At::Own(o)
            }
        };
        log(|| format!("{} with controllers {:?}", T::name(), old));
        let mut now = host(|| us(old));
        for s in 0..depth {
            let new = &news[choose(news.len())];
            log(|| format!("set controllers to {:?}", new));
            let n = host(|| us(new));
            let want = host(|| T::arr_lens(&now) == T::arr_lens(&n));
            let ok = a.with_mut(&mut |t| lib(|| t.try_set(new)));
            gcheck_eq!(CONTENT, ok, want, "success of setting controllers {:?} to {:?} in {}", now, new, T::name());
            stop_if_violated();
            if ok {
                host(|| {
                    for (l, x) in T::ctl_leaves().into_iter().zip(new) {
                        v[l][0] = *x;
                    }
                });
                host(|| now.clone_from(&n));
            }
            host(|| drop(n));
            a.check(&v, &env, if ok { "after setting controllers" } else { "after a refused setting" });
            if s == 0 && depth > 1 && choose(2) == 1 {
                let mut f = |l: usize, i: usize, x: u64| x ^ (0x51 + l as u64 + i as u64);
                host(|| model_set_all::<T>(&mut v, &mut f));
                a.with_mut(&mut |t| lib(|| t.set_all(0, &mut f)));
                a.check(&v, &env, "after writing all fields");
            }
        }
        lib(|| drop(a));
        expect_live(&env, 0, "after destroying it");
        gcheck!(TOK | TOKLEAK, true, "");
        host(|| drop((v, now, lens)));
    }
    drop(env);
}
fn add<T: Ctl>(v: &mut Vec<Section>, t: Tier) {
    if T::NCTL == 0 {
        return;
    }
    let fits = |o: &Vec<u64>| {
        let u = us(o);
        T::arr_lens(&u).iter().all(|&l| l <= 600) && T::r_layout(&T::with_ctl(&u, 2), 0, &mut vec![]) <= 6000
    };
    let news = tuples::<T>(0);
    let olds: Vec<_> = news.iter().filter(|o| fits(o)).cloned().collect();
    if T::NCTL >= 2 && t == Tier::Quick {
        // every pair, in a box; fewer pairs elsewhere
        let (a, b) = (olds.clone(), news.clone());
        v.push(Section { name: format!("{} {} x {}", T::name(), a.len(), b.len()), dev: 0, body: Box::new(move || body::<T>(&a, &b, 1, 1)) });
        let n2 = tuples::<T>(1);
        let o2: Vec<_> = n2.iter().filter(|o| fits(o)).cloned().collect();
        v.push(Section { name: format!("{} {} x {}, 3 places", T::name(), o2.len(), n2.len()), dev: 0, body: Box::new(move || body::<T>(&o2, &n2, 1, 3)) });
    } else {
        let (a, b) = (olds.clone(), news.clone());
        v.push(Section { name: format!("{} {} x {}, 3 places", T::name(), a.len(), b.len()), dev: 0, body: Box::new(move || body::<T>(&a, &b, 1, 3)) });
    }
    // histories
    let n = tuples::<T>(t.pick(3, if T::NCTL == 1 { 0 } else { 1 }));
    let o: Vec<_> = n.iter().filter(|o| fits(o)).cloned().collect();
    let depth = t.pick(2, if T::NCTL == 1 { 3 } else { 2 });
    v.push(Section { name: format!("{} {} x {}^{}", T::name(), o.len(), n.len(), depth), dev: 0, body: Box::new(move || body::<T>(&o, &n, depth, 1)) });
}

// ---------------------------------------------------------------- controllers with destructors, expressions that panic

pub struct Cn {
    pub n: u8,
    pub t: T8,
}
#[define_varlen]
pub struct Own2 {
    #[controls_layout]
    pub a: Cn,
    #[controls_layout]
    pub b: Cn,
    pub k: T12,
    #[varlen_array]
    pub xs: [T8; a.n as usize + b.n as usize],
    #[controls_layout]
    pub c: Cn,
    #[varlen_array]
    pub ys: [u16; (c.n & 1) as usize],
}
fn own2(depth: usize, faults: bool) {
    let dom = [0u8, 1, 2, 3];
    let pick = || [dom[choose(4)], dom[choose(4)], dom[choose(2)]];
    {
        let mut cur = pick();
        let mut id = 100u64;
        let mut mk = |n: [u8; 3]| {
            host(|| {
                let mut f = |n| { id += 1; Cn { n, t: T8::mk(id) } };
                let v = [f(n[0]), f(n[1]), f(n[2])];
                let ids = [v[0].t.val(), v[1].t.val(), v[2].t.val()];
                (v, ids)
            })
        };
        let nx = (cur[0] + cur[1]) as usize;
        let ny = (cur[2] & 1) as usize;
        let ([a, b, c], mut ids) = mk(cur);
        let k = host(|| T12::mk(7));
        let mut bx = lib(|| VBox::new(own_2::Init { a, b, c, k, xs: FillSequentially(|i| host(|| T8::mk(i as u64 + 50))), ys: FillSequentially(|i| i as u16 + 3) }));
        for _ in 0..depth {
            let new = pick();
            op();
            let ([a, b, c], nids) = mk(new);
            let want = new[0] + new[1] == cur[0] + cur[1] && new[2] & 1 == cur[2] & 1;
            log(|| format!("{:?} -> {:?}", cur, new));
            if faults {
                arm(F_DROP);
            }
            let r = catch(|| lib(|| bx.as_mut().try_set_layout_controllers(own_2::LayoutControllers { a, b, c }).is_ok()));
            arm(0);
            if let Some(r) = r {
                gcheck_eq!(CONTENT, r, want, "success of setting {:?} to {:?}", cur, new);
            } else {
                log(|| "a destructor panicked".into());
            }
            if want {
                cur = new;
                ids = nids;
            }
            let r = bx.refs();
            let now = [(r.a.n, r.a.t.val()), (r.b.n, r.b.t.val()), (r.c.n, r.c.t.val())];
            let exp = [(cur[0], ids[0]), (cur[1], ids[1]), (cur[2], ids[2])];
            gcheck_eq!(CONTENT, now, exp, "controllers (length, identity) after setting, panicked: {}", faults && dev_used() > 0);
            stop_if_violated();
            gcheck_eq!(CONTENT, (r.xs.len(), r.ys.len(), r.k.val()), (nx, ny, 7), "array lengths and other field");
            for (i, x) in r.xs.iter().enumerate() {
                gcheck_eq!(CONTENT, x.val(), i as u64 + 50, "element {}", i);
            }
            for (i, y) in r.ys.iter().enumerate() {
                gcheck_eq!(CONTENT, *y, i as u16 + 3, "element {}", i);
            }
            gcheck_eq!(TOK | TOKLEAK, live(), 4 + nx as i64, "live values after setting controllers");
            let mut h = H::new(3);
            for x in exp {
                h.u(x.0 as u64);
            }
            state(h.get(), 0);
            stop_if_violated();
        }
        lib(|| drop(bx));
        gcheck_eq!(TOK | TOKLEAK, live(), 0, "live values at the end");
    }
}
#[define_varlen]
pub struct Quot {
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub xs: [T8; 12 / *n as usize],
    #[controls_layout]
    pub m: Option<u8>,
    #[varlen_array]
    pub ys: [u16; match m { Some(x) => 6 / *x as usize, None => 0 }],
}
/// length expressions that panic for some values
fn quot(depth: usize) {
    let ns: Vec<u8> = host(|| (1..=13).collect());
    let ms = [None, Some(1u8), Some(2), Some(4), Some(5), Some(7)];
    let len_x = |n: u8| if n == 0 { None } else { Some(12 / n as usize) };
    let len_y = |m: Option<u8>| match m {
        None => Some(0),
        Some(0) => None,
        Some(x) => Some(6 / x as usize),
    };
    let (n, m) = (ns[choose(ns.len())], ms[choose(ms.len())]);
    let mut cur = (n, m);
    let mut bx = lib(|| VBox::new(quot::Init { n, m, xs: FillSequentially(|i| host(|| T8::mk(i as u64 + 50))), ys: FillSequentially(|i| i as u16 + 3) }));
    let (nx, ny) = (len_x(n), len_y(m));
    for _ in 0..depth {
        let k = choose(14 * 7);
        let new = ((k / 7) as u8, if k % 7 == 6 { Some(0) } else { ms[k % 7] });
        op();
        log(|| format!("{:?} -> {:?}", cur, new));
        let r = catch(|| lib(|| bx.as_mut().try_set_layout_controllers(quot::LayoutControllers { n: new.0, m: new.1 }).is_ok()));
        let (wx, wy) = (len_x(new.0), len_y(new.1));
        if let Some(r) = r {
            gcheck_eq!(CONTENT, r, wx == nx && wy == ny, "success of setting {:?} to {:?}", cur, new);
        }
        if wx == nx && wy == ny {
            gcheck!(CONTENT, r.is_some(), "setting {:?} to {:?} panicked", cur, new);
            cur = new;
        }
        let f = bx.refs();
        gcheck_eq!(CONTENT, (*f.n, *f.m), cur, "controllers after setting");
        stop_if_violated();
        gcheck_eq!(CONTENT, (Some(f.xs.len()), Some(f.ys.len())), (nx, ny), "array lengths");
        for (i, x) in f.xs.iter().enumerate() {
            gcheck_eq!(CONTENT, x.val(), i as u64 + 50, "element {}", i);
        }
        for (i, y) in f.ys.iter().enumerate() {
            gcheck_eq!(CONTENT, *y, i as u16 + 3, "element {}", i);
        }
        let mut h = H::new(4);
        h.u(cur.0 as u64);
        h.u(cur.1.map_or(99, |x| x as u64));
        state(h.get(), 0);
    }
    lib(|| drop(bx));
    gcheck_eq!(TOK | TOKLEAK, live(), 0, "live values at the end");
    host(|| drop(ns));
}

fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    v.push(Section { name: "controllers with destructors".into(), dev: 0, body: Box::new(move || own2(t.pick(2, 3), false)) });
    v.push(Section { name: "controllers with panicking destructors".into(), dev: t.pick(1, 3), body: Box::new(move || own2(t.pick(2, 3), true)) });
    v.push(Section { name: "panicking length expressions".into(), dev: 0, body: Box::new(move || quot(t.pick(1, 2))) });
    mc::for_structs!(add, &mut v, t);
    #[cfg(feature = "gen4")]
    mc::four_structs!(add4, &mut v, t);
    v
}
#[cfg(feature = "gen4")]
use add as add4;
fn main() {
    set_mask(CONTENT | TOK | TOKLEAK);
    mc::driver::main(
        Meta {
            id: "C15",
            level: "model_checking",
            rule: "every generated struct with length-controlling fields x every (old, new) pair of controller tuples over a domain of small and extreme values x place (box, arena, middle of a sequence), plus histories of settings interleaved with writes: success exactly when the specification's length functions agree on old and new, all controllers new on success and all unchanged otherwise, contents, size, neighbours and ledger of values unchanged; controllers with destructors, each destructor call panicking or not; length expressions that panic",
            bounds: "all generated structs with 1 to 3 controllers of 6 types (see C14) and 2 hand-written ones; up to 17 values per controller; old values limited to objects under 6000 bytes; histories of 2 (3 thorough) settings".into(),
            assumptions: &["controller values that overflow the user's own length expression are not set"],
        },
        secs,
    );
}
