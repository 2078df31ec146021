use mc::alloc::{host, lib};
use mc::driver::*;
use mc::explore::*;
use mc::place::*;
use mc::sim::*;
use mc::subj::*;
use mc::tok::{births, clones};
use mc::zoo::*;
use mc::{gcheck, gcheck_eq};
use varlen::{VBox, VClone, VCopy};

type Copier<T> = for<'a> fn(&'a T) -> DynInit<'a, T>;

struct Ob<'e, T: Subj> {
    p: Pl<'e, T>,
    v: Val,
}
struct World<'e, T: Subj> {
    env: &'e Env,
    small: &'e [usize],
    obs: Vec<Ob<'e, T>>,
    copier: Option<Copier<T>>,
    step: u64,
}
impl<'e, T: Subj + for<'a> VClone<'a>> World<'e, T> {
    fn check(&self, what: &str) {
        let mut held = 0;
        for o in &self.obs {
            o.p.check(&o.v, what);
            held += tokens::<T>(&o.v) + o.p.around();
        }
        expect_live(self.env, held, what);
        self.env.check_guards();
        stop_if_violated();
        let mut h = H::new(self.obs.len() as u64);
        for o in &self.obs {
            for l in &o.v {
                h.u(l.len() as u64);
                for c in l {
                    h.u(*c);
                }
            }
            h.bytes(o.p.name().as_bytes());
        }
        state(h.get(), 0);
    }
    /// mode 0: vclone; 1: vcopy; 2: Clone for VBox
    fn dup(&mut self, i: usize, mode: usize, place: usize) {
        op();
        log(|| format!("{} of #{} ({}) into a {}", ["vclone", "vcopy", "VBox::clone"][mode], i, self.obs[i].p.name(), NAMES[place]));
        let v = host(|| self.obs[i].v.clone());
        let nbt = if place == 2 || place == 3 { 2 * tokens::<T>(&host(|| T::make(self.small, 0xabcd))) } else { 0 };
        let (c0, b0) = (clones(), births());
        let (env, small) = (self.env, self.small);
        let p: Pl<'e, T> = match mode {
            2 => match &self.obs[i].p {
                Pl::Box(b) => Pl::Box(lib(|| VBox::clone(b))),
                _ => unreachable!(),
            },
            1 => {
                let f = self.copier.unwrap();
                self.obs[i].p.with(|t| Pl::put(place, f(t), small, env))
            }
            _ => self.obs[i].p.with(|t| {
                let c = lib(|| t.vclone());
                Pl::put(place, c, small, env)
            }),
        };
        if mode == 1 {
            gcheck_eq!(CALLS | CONTENT, (clones() - c0, births() as i64 - b0 as i64 - nbt), (0, 0), "clones run by a bitwise copy, and values made by it");
        } else {
            let n = host(|| {
                let mut m = vec![];
                <T as Counted>::clone_counted(&mut m);
                v.iter().zip(m).map(|(l, t)| if t { l.len() as u64 } else { 0 }).sum::<u64>()
            });
            gcheck_eq!(CALLS | CONTENT, clones() - c0, n, "elements' own clones run by cloning");
        }
        host(|| self.obs.push(Ob { p, v }));
    }
    fn unused(&mut self, i: usize) {
        op();
        log(|| format!("an unused clone of #{}", i));
        self.obs[i].p.with(|t| {
            let c = lib(|| t.vclone());
            lib(|| drop(c));
        });
        if let Some(f) = self.copier {
            self.obs[i].p.with(|t| {
                let c = f(t);
                lib(|| drop(c));
            });
        }
    }
    fn write(&mut self, i: usize) {
        let cs = cells::<T>(&self.obs[i].v);
        op();
        self.step += 1;
        let n = self.step;
        let ob = &mut self.obs[i];
        // 0: every cell; else one cell
        let k = choose(cs.len() + 1);
        if k == 0 {
            log(|| format!("write every cell of #{}", i));
            let mut f = |l: usize, i: usize, x: u64| x.rotate_left(9) ^ (l as u64 * 11 + i as u64 + n);
            host(|| model_set_all::<T>(&mut ob.v, &mut f));
            ob.p.with_mut(|t| lib(|| t.set_all(0, &mut f)));
        } else {
            let (l, j) = cs[k - 1];
            log(|| format!("write cell {} of part {} of #{}", j, l, i));
            let x = ob.v[l][j] ^ 0x35_3535 ^ n;
            host(|| model_set::<T>(&mut ob.v, l, j, x));
            ob.p.with_mut(|t| lib(|| t.set(l, j, x)));
        }
        host(|| drop(cs));
    }
    fn write_all(&mut self, i: usize) {
        op();
        self.step += 1;
        let n = self.step;
        let ob = &mut self.obs[i];
        log(|| format!("write every cell of #{}", i));
        let mut f = |l: usize, i: usize, x: u64| x.rotate_left(9) ^ (l as u64 * 11 + i as u64 + n);
        host(|| model_set_all::<T>(&mut ob.v, &mut f));
        ob.p.with_mut(|t| lib(|| t.set_all(0, &mut f)));
    }
    fn destroy(&mut self, i: usize) {
        op();
        log(|| format!("destroy #{} ({})", i, self.obs[i].p.name()));
        let Ob { p, v } = self.obs.remove(i);
        lib(|| drop(p));
        host(|| drop(v));
    }
}
/// which leaves hold values that count their clones
trait Counted: Subj {
    fn clone_counted(out: &mut Vec<bool>);
}
impl<T: Subj> Counted for T {
    fn clone_counted(out: &mut Vec<bool>) {
        let n = T::name();
        // the counted non-token payloads are used in types of their own
        if n.contains("CZ") {
            // everything of no size in these types counts
            let mut ks = vec![];
            T::kinds(&mut ks);
            out.extend(ks.iter().map(|k| matches!(k, Kind::Fixed(0) | Kind::Arr(0, _) | Kind::Dep(0))));
        } else if n.contains("CK") {
            let mut ks = vec![];
            T::kinds(&mut ks);
            out.extend(ks.iter().map(|k| matches!(k, Kind::Fixed(m) | Kind::Arr(m, _) | Kind::Dep(m) if *m == CK_MASK)));
        } else {
            T::toks(out);
        }
    }
}

fn body<T: Subj + for<'a> VClone<'a>>(shapes: &[Vec<usize>], depth: usize, copier: Option<Copier<T>>) {
    let sh = &shapes[choose(shapes.len())];
    let env = Env::new();
    {
        let mut w = World::<T> { env: &env, small: &shapes[0], obs: host(|| Vec::with_capacity(8)), copier, step: 0 };
        let v = host(|| T::make(sh, 3));
        let init = host(|| T::direct(&v, &mut |_| 0, &env));
        let place = choose(PLACES);
        log(|| format!("#0 {} in a {}", show(&v), NAMES[place]));
        let p = Pl::put(place, init, &shapes[0], &env);
        host(|| w.obs.push(Ob { p, v }));
        w.check("before cloning");
        for s in 0..depth {
            let n = w.obs.len();
            if n == 0 {
                break;
            }
            // first step: duplicate, or write then duplicate
            let i = choose(n);
            let modes = 1 + copier.is_some() as usize;
            let grow = n < 3;
            let boxed = grow && matches!(w.obs[i].p, Pl::Box(_));
            let k = if s == 0 && depth > 1 { choose(2 + boxed as usize) } else { choose(4 + boxed as usize) };
            match k {
                0 if grow => {
                    let mode = choose(modes);
                    let place = choose(PLACES);
                    w.dup(i, mode, place);
                }
                0 | 1 => w.write(i),
                2 if !(s == 0 && boxed) => w.destroy(i),
                3 => w.unused(i),
                _ => w.dup(i, 2, 0),
            }
            w.check("afterwards");
        }
        while !w.obs.is_empty() {
            let i = choose(w.obs.len());
            w.destroy(i);
            w.check("after destroying another");
        }
        gcheck!(TOK | TOKLEAK, true, "");
        host(|| drop(w));
    }
    drop(env);
}
fn sec<T: Subj + for<'a> VClone<'a>>(v: &mut Vec<Section>, t: Tier, n: usize, copier: Option<Copier<T>>) {
    let shapes = pick_shapes::<T>(n);
    let depth = t.pick(2, 3);
    v.push(Section {
        name: format!("{}{} {} shapes, {} steps", T::name(), if copier.is_some() { " with copies" } else { "" }, shapes.len(), depth),
        dev: 0,
        body: Box::new(move || body::<T>(&shapes, depth, copier)),
    });
}
/// Large objects: cloned and copied into every place, then every cell of one of them written.
fn large<T: Subj + for<'a> VClone<'a>>(v: &mut Vec<Section>, ladder: &[usize], copier: Option<Copier<T>>) {
    let mut shapes = pick_shapes::<T>(1);
    shapes.extend(mc::scale::lens::<T>(ladder));
    v.push(Section {
        name: format!("large {}{} {} shapes up to {}", T::name(), if copier.is_some() { " with copies" } else { "" }, shapes.len(), ladder[ladder.len() - 1]),
        dev: 0,
        body: Box::new(move || {
            let sh = &shapes[1 + choose(shapes.len() - 1)];
            let env = Env::new();
            {
                let mut w = World::<T> { env: &env, small: &shapes[0], obs: host(|| Vec::with_capacity(8)), copier, step: 0 };
                let v = host(|| T::make(sh, 3));
                let init = host(|| T::direct(&v, &mut |_| 0, &env));
                let place = choose(2);
                log(|| format!("#0 {} in a {}", show(&v), NAMES[place]));
                let p = Pl::put(place, init, &shapes[0], &env);
                host(|| w.obs.push(Ob { p, v }));
                let mode = choose(2 + (place == 0) as usize);
                if mode == 1 && copier.is_none() {
                    w.unused(0);
                } else {
                    w.dup(0, mode, if mode == 2 { 0 } else { choose(PLACES) });
                }
                w.check("afterwards");
                let i = choose(w.obs.len());
                w.write_all(i);
                w.check("after writing");
                while !w.obs.is_empty() {
                    let i = choose(w.obs.len());
                    w.destroy(i);
                    w.check("after destroying another");
                }
                host(|| drop(w));
            }
            drop(env);
        }),
    });
}
fn clo<T: Subj + for<'a> VClone<'a>>(v: &mut Vec<Section>, t: Tier) {
    sec::<T>(v, t, t.pick(3, 3), None);
}
fn cop<T: Subj + for<'a> VClone<'a> + for<'a> VCopy<'a>>(v: &mut Vec<Section>, t: Tier) {
    sec::<T>(v, t, t.pick(3, 4), Some(|x| DynInit::new(lib(|| x.vcopy()))));
}
fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    clo::<FixedLen<T8>>(&mut v, t);
    clo::<FixedLen<TZ>>(&mut v, t);
    clo::<FixedLen<T64>>(&mut v, t);
    clo::<Array<T8, u16>>(&mut v, t);
    clo::<Array<T2, u64>>(&mut v, t);
    clo::<Array<T16, u8>>(&mut v, t);
    clo::<Array<TZ, u16>>(&mut v, t);
    clo::<Array<CK, u8>>(&mut v, t);
    clo::<FixedLen<CZ>>(&mut v, t);
    clo::<Array<CZ, u8>>(&mut v, t);
    clo::<Tup3<Array<CZ, u16>, Array<u8, u8>, FixedLen<CZ>>>(&mut v, t);
    clo::<Tup2<FixedLen<T16>, Array<T8, u8>>>(&mut v, t);
    clo::<Tup3<FixedLen<u8>, Array<T8, u16>, Str<u8>>>(&mut v, t);
    clo::<Tup4<FixedLen<T8>, Array<T2, u8>, FixedLen<T16>, Array<T8, u8>>>(&mut v, t);
    clo::<Tup5<FixedLen<u8>, Array<T8, u8>, Str<u16>, FixedLen<T12>, Array<u64, u8>>>(&mut v, t);
    clo::<Tup5<FixedLen<T2>, FixedLen<T8>, FixedLen<T12>, FixedLen<T16>, FixedLen<T64>>>(&mut v, t);
    clo::<Tup2<Tup2<FixedLen<u8>, Array<T8, u8>>, Tup2<Str<u8>, FixedLen<T2>>>>(&mut v, t);
    clo::<W<W<Array<T12, u8>>>>(&mut v, t);
    clo::<few::SAd>(&mut v, t);
    clo::<few::SAf>(&mut v, t);
    cop::<FixedLen<CK>>(&mut v, t);
    cop::<FixedLen<u64>>(&mut v, t);
    cop::<FixedLen<()>>(&mut v, t);
    cop::<FixedLen<[u8; 3]>>(&mut v, t);
    cop::<Array<CK, u8>>(&mut v, t);
    cop::<Array<CK, usize>>(&mut v, t);
    cop::<Array<u8, u8>>(&mut v, t);
    cop::<Array<A64, u16>>(&mut v, t);
    cop::<Array<(), u8>>(&mut v, t);
    cop::<Str<u8>>(&mut v, t);
    cop::<Str<u32>>(&mut v, t);
    cop::<Str>(&mut v, t);
    cop::<Tup2<FixedLen<CK>, Array<CK, u8>>>(&mut v, t);
    cop::<Tup2<Array<u16, u8>, Array<CK, u16>>>(&mut v, t);
    cop::<Tup3<FixedLen<u8>, Array<CK, u16>, Str<u8>>>(&mut v, t);
    cop::<Tup4<Str<u8>, Array<u16, u8>, FixedLen<A64>, Array<CK, u8>>>(&mut v, t);
    cop::<Tup5<FixedLen<u8>, Array<CK, u8>, Str<u16>, FixedLen<CK>, Array<u64, u8>>>(&mut v, t);
    cop::<Tup2<Tup2<FixedLen<u8>, Array<CK, u8>>, Tup2<Str<u8>, FixedLen<u64>>>>(&mut v, t);
    let b8: &[usize] = t.pick(&[255, 257, 4097, 65537], &[127, 129, 255, 256, 257, 511, 1023, 1025, 4096, 4097, 32769, 65535, 65536, 65537]);
    let b16: &[usize] = t.pick(&[256, 4097, 65535], &[127, 129, 255, 256, 511, 1025, 4096, 8193, 65535]);
    macro_rules! copy {
        () => {
            Some(|x| DynInit::new(lib(|| x.vcopy())))
        };
    }
    large::<Array<T8, u16>>(&mut v, &b16[..b16.len() - 1], None);
    large::<Tup2<FixedLen<T16>, Array<T8, u16>>>(&mut v, &b16[..b16.len() - 1], None);
    large::<W<Array<T12, u32>>>(&mut v, &b16[..b16.len() - 1], None);
    large::<Array<CK, u16>>(&mut v, b16, copy!());
    large::<Array<u8, u32>>(&mut v, b8, copy!());
    large::<Array<A64, u16>>(&mut v, &b16[..b16.len() - 1], copy!());
    large::<Str<u32>>(&mut v, b8, copy!());
    let huge: &[usize] = t.pick(&[(1 << 20) + 5], &[(1 << 20) - 1, (1 << 20) + 5, (1 << 22) + 1]);
    large::<Array<u8, u32>>(&mut v, huge, copy!());
    large::<Tup2<Array<u8, u32>, FixedLen<CK>>>(&mut v, huge, copy!());
    large::<Tup2<Str<u32>, FixedLen<T8>>>(&mut v, huge, None);
    large::<Array<CZ, u16>>(&mut v, &[256, 65535], copy!());
    large::<Tup2<Array<u16, u32>, Array<CK, u16>>>(&mut v, b16, copy!());
    large::<Tup3<FixedLen<u8>, Array<u64, u16>, Str<u32>>>(&mut v, b16, copy!());
    v
}
fn main() {
    set_mask(CONTENT | TOK | TOKLEAK | CALLS);
    mc::driver::main(
        Meta {
            id: "C13",
            level: "model_checking",
            rule: "every shape x place of the source x sequence of {clone, bitwise copy, VBox::clone into every place, write one cell, write every cell, destroy, abandon an unused clone} over up to three live objects, then every destruction order; after every step every object still alive is compared with its own model, with its surroundings and the ledger of values",
            bounds: "35 types (fixed, arrays, strings, tuples of every arity, nested, wrappers, macro structs); up to 3 shapes (4 thorough); 2 steps (3 thorough) after construction; 8 places; 9 types with parts of up to 65537 cells, one clone or copy into every place".into(),
            assumptions: &[],
        },
        secs,
    );
}
