use mc::alloc::{host, lib};
use mc::driver::*;
use mc::explore::*;
use mc::subj::*;
use mc::zoo::*;
use mc::{gcheck, gcheck_eq};
use std::pin::Pin;
use varlen::{Owned, Seq, VBox};

type Write = (usize, usize, u64);
/// Tuples, all of whose fields are borrowed mutably at once.
trait Fields: Subj {
    const N: usize;
    /// perform the writes in order with every field's mutable view held throughout
    fn inter(self: Pin<&mut Self>, ws: &[Write]);
    /// extents of the fields by refs and by muts
    fn by_refs(&self) -> Vec<Vec<(usize, usize)>>;
    fn by_muts(self: Pin<&mut Self>) -> Vec<Vec<(usize, usize)>>;
    /// content of field k alone
    fn field(&self, k: usize) -> Val;
    fn widths() -> Vec<usize>;
    /// the moved-apart parts of Muts: one field changed through a view that outlives the others
    fn apart(self: Pin<&mut Self>, k: usize, w: Write);
}
macro_rules! fields {
    ($Tup:ident, $n:expr, [$($A:ident $t:ident $i:tt),*]) => {
        impl<$($A: Subj + for<'a> varlen::VClone<'a>),*> Fields for $Tup<$($A),*> {
            const N: usize = $n;
            fn inter(self: Pin<&mut Self>, ws: &[Write]) {
                let mut m = self.muts();
                for &(leaf, idx, x) in ws {
                    let mut at = 0;
                    $(
                        let k = $A::leaves();
                        if leaf >= at && leaf < at + k {
                            m.$i.as_mut().set(leaf - at, idx, x);
                        }
                        at += k;
                    )*
                    let _ = at;
                }
                // still valid afterwards
                let mut v = host(Vec::new);
                $( m.$i.as_ref().get_ref().read(&mut v); )*
                host(|| drop(v));
            }
            fn by_refs(&self) -> Vec<Vec<(usize, usize)>> {
                let r = self.refs();
                let mut out = vec![];
                $( let mut v = vec![]; r.$i.parts(&mut v); out.push(v); )*
                out
            }
            fn by_muts(self: Pin<&mut Self>) -> Vec<Vec<(usize, usize)>> {
                let m = self.muts();
                let mut out = vec![];
                $( let mut v = vec![]; m.$i.as_ref().get_ref().parts(&mut v); out.push(v); )*
                out
            }
            fn field(&self, k: usize) -> Val {
                let r = self.refs();
                match k {
                    $( $i => read::<$A>(r.$i), )*
                    _ => vec![],
                }
            }
            fn widths() -> Vec<usize> {
                vec![$($A::leaves()),*]
            }
            fn apart(self: Pin<&mut Self>, k: usize, w: Write) {
                let m = self.muts();
                $( let $t = m.$i; )*
                match k {
                    $( $i => $t.set(w.0, w.1, w.2), )*
                    _ => {}
                }
            }
        }
    };
}
fields!(Tup2, 2, [A a 0, B b 1]);
fields!(Tup3, 3, [A a 0, B b 1, C c 2]);
fields!(Tup4, 4, [A a 0, B b 1, C c 2, D d 3]);
fields!(Tup5, 5, [A a 0, B b 1, C c 2, D d 3, E e 4]);

fn check<T: Fields>(t: &T, v: &Val, what: &str) {
    let got = read::<T>(t);
    gcheck_eq!(CONTENT, got, *v, "{}", what);
    host(|| drop(got));
    let mut at = 0;
    let ws = host(T::widths);
    for (k, w) in ws.iter().enumerate() {
        let f = t.field(k);
        gcheck!(CONTENT, f[..] == v[at..at + w], "field {} alone is {:?} instead of {:?}, {}", k, f, &v[at..at + w], what);
        host(|| drop(f));
        at += w;
    }
    host(|| drop(ws));
}
fn write<T: Fields>(v: &Val, step: u64) -> Option<(Write, Val)> {
    // every first, last and middle cell of every part
    let mut cells: Vec<(usize, usize)> = host(Vec::new);
    let mut ks = host(Vec::new);
    host(|| T::kinds(&mut ks));
    for (l, c) in v.iter().enumerate() {
        if c.is_empty() {
            continue;
        }
        let mut is = host(|| vec![0, c.len() / 2, c.len() - 1]);
        is.dedup();
        if let Kind::Str(_) = ks[l] {
            is.truncate(1);
        }
        host(|| cells.extend(is.iter().map(|&i| (l, i))));
        host(|| drop(is));
    }
    host(|| drop(ks));
    if cells.is_empty() {
        return None;
    }
    let (l, i) = cells[choose(cells.len())];
    host(|| drop(cells));
    let x = (l as u64 * 0x1234_5678_9abc + i as u64 * 0x3357 + step * 0x7fff_1111_0003 + 0x8d) | step & 1;
    let mut w = host(|| v.clone());
    host(|| model_set::<T>(&mut w, l, i, x));
    Some(((l, i, x), w))
}
fn disjoint(p: &[Vec<(usize, usize)>], what: &str) {
    for a in 0..p.len() {
        for b in 0..a {
            for &(x, n) in &p[a] {
                for &(y, m) in &p[b] {
                    gcheck!(CONTENT, n == 0 || m == 0 || x + n <= y || y + m <= x, "fields {} and {} overlap {}", b, a, what);
                }
            }
        }
    }
}
fn body<T: Fields>(shapes: &[Vec<usize>], depth: usize) {
    let env = Env::new();
    {
        let lens = &shapes[choose(shapes.len())];
        let mut v = host(|| T::make(lens, 0x7157));
        let r = choose(ROUTES + 1);
        // r < ROUTES: every field by route r; else the routes take turns
        let mut k = 0;
        let i = T::direct(
            &v,
            &mut |n| {
                k += 1;
                (if r < ROUTES { r } else { k }) % n
            },
            &env,
        );
        let place = choose(3);
        let mut q: Seq<T> = lib(|| Seq::new());
        let mut ob: Option<VBox<T>> = None;
        let mut oo: Option<Owned<T>> = None;
        op();
        match place {
            0 => ob = Some(lib(|| VBox::new(i))),
            1 => oo = Some(lib(|| Owned::new_in(i, &env.bump))),
            _ => {
                let pre = T::direct(&v, &mut |_| 0, &env);
                lib(|| q.push(pre));
                lib(|| q.push(i));
                let post = T::direct(&v, &mut |_| 0, &env);
                lib(|| q.push(post));
            }
        }
        let orig = host(|| v.clone());
        let mut with = |f: &mut dyn FnMut(Pin<&mut T>)| match place {
            0 => f(ob.as_mut().unwrap().as_mut()),
            1 => f(oo.as_mut().unwrap().as_mut()),
            _ => {
                for (k, mut e) in q.iter_mut().enumerate() {
                    if k == 1 {
                        f(e.as_mut());
                    } else {
                        check::<T>(&e, &orig, "neighbour");
                    }
                }
            }
        };
        with(&mut |t| check::<T>(&t, &v, "as built"));
        with(&mut |mut t| {
            let p = host(|| t.by_refs());
            let m = host(|| t.as_mut().by_muts());
            disjoint(&p, "by refs");
            disjoint(&m, "by muts");
            gcheck_eq!(CONTENT, p, m, "field extents by refs and by muts");
            host(|| drop((p, m)));
        });
        match choose(3) {
            0 => {
                // writes interleaved through views held together
                let mut ws = host(Vec::new);
                for s in 0..depth {
                    if let Some((w, nv)) = write::<T>(&v, s as u64) {
                        host(|| {
                            ws.push(w);
                            v = nv;
                        });
                    }
                }
                log(|| format!("writes {:x?}", ws));
                op();
                with(&mut |t| t.inter(&ws));
                with(&mut |t| check::<T>(&t, &v, "after writes through simultaneous views"));
                host(|| drop(ws));
            }
            1 => {
                // one view kept, the others gone
                if let Some(((l, i, x), nv)) = write::<T>(&v, 3) {
                    let ws = host(T::widths);
                    let mut at = 0;
                    let mut k = 0;
                    while l >= at + ws[k] {
                        at += ws[k];
                        k += 1;
                    }
                    op();
                    with(&mut |t| t.apart(k, (l - at, i, x)));
                    host(|| {
                        drop(ws);
                        v = nv;
                    });
                    with(&mut |t| check::<T>(&t, &v, "after a write through one field's view"));
                }
            }
            _ => {
                // all cells of all fields at once
                op();
                let mut f = |l: usize, i: usize, x: u64| x.rotate_left(7) ^ (l as u64 * 11 + i as u64);
                host(|| model_set_all::<T>(&mut v, &mut f));
                with(&mut |t| t.set_all(0, &mut f));
                with(&mut |t| check::<T>(&t, &v, "after writing every cell"));
            }
        }
        let mut h = H::new(place as u64);
        for l in &v {
            h.u(l.len() as u64);
            for c in l {
                h.u(*c);
            }
        }
        state(h.get(), 0);
        lib(|| drop((q, ob, oo)));
        host(|| drop((v, orig)));
    }
    drop(env);
}
fn sec<T: Fields>(v: &mut Vec<Section>, t: Tier, cap: usize) {
    let shapes = shapes_upto::<T>(cap);
    let depth = t.pick(2, 3);
    v.push(Section { name: format!("{} {} shapes, {} interleaved writes", T::name(), shapes.len(), depth), dev: 0, body: Box::new(move || body::<T>(&shapes, depth)) });
}
/// Fields beyond the far side of large ones.
fn far<T: Fields>(v: &mut Vec<Section>, ladder: &[usize]) {
    let shapes = mc::scale::lens::<T>(ladder);
    v.push(Section { name: format!("far {} {} shapes up to {}", T::name(), shapes.len(), ladder[ladder.len() - 1]), dev: 0, body: Box::new(move || body::<T>(&shapes, 1)) });
}
fn lay<T: Fields>(v: &mut Vec<Section>, t: Tier) {
    sec::<T>(v, t, t.pick(16, 64));
}
fn toks<T: Fields>(v: &mut Vec<Section>, t: Tier) {
    sec::<T>(v, t, t.pick(27, 125));
}
fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    mc::zoo_layout!(lay, &mut v, t);
    toks::<Tup2<FixedLen<T16>, Array<T8, u8>>>(&mut v, t);
    toks::<Tup2<Array<T2, u8>, Array<T2, u8>>>(&mut v, t);
    toks::<Tup3<Str<u8>, Str<u16>, Str>>(&mut v, t);
    toks::<Tup3<Array<TZ, u8>, Array<T12, u16>, FixedLen<TZ>>>(&mut v, t);
    toks::<Tup4<FixedLen<T1>, Array<T1, u8>, Array<T8, u8>, FixedLen<T64>>>(&mut v, t);
    toks::<Tup4<Str<u8>, Str<u8>, Str<u8>, Str<u8>>>(&mut v, t);
    toks::<Tup5<FixedLen<u8>, FixedLen<T2>, FixedLen<u64>, FixedLen<T12>, FixedLen<u16>>>(&mut v, t);
    toks::<Tup5<Str<u8>, Array<T8, u8>, Str<u16>, Array<A16, u8>, Array<u8, u8>>>(&mut v, t);
    toks::<Tup2<Tup2<FixedLen<u8>, Array<T8, u8>>, Tup2<Str<u8>, FixedLen<u64>>>>(&mut v, t);
    toks::<Tup3<Tup2<Array<u8, u8>, Tup2<Array<u32, u8>, FixedLen<u8>>>, FixedLen<T16>, Tup2<Str<u8>, Array<T2, u8>>>>(&mut v, t);
    toks::<Tup2<W<Tup2<Array<u8, u8>, FixedLen<u64>>>, W<W<Array<T2, u8>>>>>(&mut v, t);
    toks::<Tup3<few::SAe, FixedLen<u8>, few::SAd>>(&mut v, t);
    toks::<Tup2<FixedLen<()>, Array<(), u8>>>(&mut v, t);
    let ladder = t.pick(&[257, 70001, (1 << 20) + 5][..], &[255, 257, 4096, 4099, 65535, 65537, 70001, (1 << 20) - 1, (1 << 20) + 5, (1 << 22) + 3]);
    far::<Tup2<Array<u8, u32>, FixedLen<u64>>>(&mut v, ladder);
    far::<Tup3<Str<u32>, Array<u8, u8>, Str>>(&mut v, t.pick(&[70001], ladder));
    far::<Tup3<FixedLen<u8>, Array<u8, u32>, Array<T2, u8>>>(&mut v, &[255]);
    far::<Tup4<Array<u16, u32>, Str<u16>, Array<T8, u8>, FixedLen<u32>>>(&mut v, &[200]);
    far::<Tup5<FixedLen<u64>, Array<u32, u32>, Str<u8>, FixedLen<u8>, Array<T2, u8>>>(&mut v, &[255]);
    v
}
fn main() {
    set_mask(CONTENT);
    mc::driver::main(
        Meta {
            id: "C12",
            level: "model_checking",
            rule: "every shape x hand-over route x place x sequence of writes through simultaneously held field views; all fields compared with the model after, extents of the views compared and checked for overlap",
            bounds: "96 tuple types of arity 2..5 (nested, wrapped, macro structs, zero-size, over-aligned); lengths of the variable parts from a set as large as 16..27 shapes allow (64..125 thorough); 2 interleaved writes (3 thorough) to first/middle/last cell of every part".into(),
            assumptions: &[],
        },
        secs,
    );
}
