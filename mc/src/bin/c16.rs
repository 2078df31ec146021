use mc::alloc::{bytes, host, lib, live_blocks, live_bytes, requests};
use mc::driver::*;
use mc::explore::*;
use mc::newt::Wrap;
use mc::place::*;
use mc::sim::*;
use mc::subj::*;
use mc::tok::{births, clones, drops};
use mc::world::{Op::*, *};
use mc::zoo::*;
use mc::gcheck_eq;
use std::pin::Pin;
use varlen::{Initializer, Layout, VClone, VarLen};

type Counts = [i64; 7];
fn counts() -> Counts {
    [births() as i64, drops() as i64, clones() as i64, requests() as i64, bytes() as i64, live_blocks() as i64, live_bytes() as i64]
}
fn delta<R>(f: impl FnOnce() -> R) -> (Counts, R) {
    let a = counts();
    let r = f();
    let b = counts();
    let mut d = [0; 7];
    for i in 0..7 {
        d[i] = b[i] - a[i];
    }
    (d, r)
}
/// how much an arena asks for depends on where its chunks happen to lie
fn no_arena(mut d: Counts, arena: bool) -> Counts {
    if arena {
        d[3..].fill(0);
    }
    d
}
const WHAT: &str = "[values made, destroyed, cloned, storage requests, bytes requested, blocks held, bytes held]";

fn types<X: Wrap>() {
    type I<X> = <X as Wrap>::Inner;
    gcheck_eq!(LAYOUT, X::ALIGN, <I<X> as VarLen>::ALIGN, "alignment constant");
    gcheck_eq!(LAYOUT, std::mem::align_of::<X>(), std::mem::align_of::<I<X>>(), "alignment of the header");
    gcheck_eq!(LAYOUT, std::mem::size_of::<X>(), std::mem::size_of::<I<X>>(), "size of the header");
}
/// The same initializer used directly and wrapped, in the same kind of place.
fn build<X: Wrap + for<'a> VClone<'a>>(shapes: &[Vec<usize>]) {
    types::<X>();
    let sh = &shapes[choose(shapes.len())];
    let envi = Env::new();
    let envx = Env::new();
    {
        let mut v = host(|| X::make(sh, 9));
        let r = choose(ROUTES);
        let pl = choose(PLACES);
        log(|| format!("{} handed over by route {}, in a {}", show(&v), r, NAMES[pl]));
        op();
        let ii = any_route::<X::Inner>(r, &v, &mut |n| (r * 7 + 3) % n, &envi);
        let ix = any_route::<X::Inner>(r, &v, &mut |n| (r * 7 + 3) % n, &envx);
        let li = lib(|| ii.calculate_layout_cautious()).map(|l| l.size());
        let wx = lib(|| X::wrap(ix));
        let lx = lib(|| wx.calculate_layout_cautious()).map(|l| l.size());
        gcheck_eq!(LAYOUT | CONTENT, lx, li, "predicted size, wrapped and not");
        gcheck_eq!(LAYOUT | CONTENT, lx, Some(r_size::<X::Inner>(sh)), "predicted size");
        let (di, mut pi) = delta(|| Pl::<X::Inner>::put(pl, ii, &shapes[0], &envi));
        let (dx, mut px) = delta(|| Pl::<X>::put(pl, wx, &shapes[0], &envx));
        gcheck_eq!(CONTENT | TOK, no_arena(dx, pl == 1), no_arena(di, pl == 1), "{} by building the wrapped and the bare object", WHAT);
        pi.check(&v, "bare");
        px.check(&v, "wrapped");
        px.with(|x| {
            gcheck_eq!(CONTENT, x.inn() as *const X::Inner as usize, x as *const X as usize, "address of the inner view");
            let a = host(|| read::<X::Inner>(x.inn()));
            gcheck_eq!(CONTENT, &a, &v, "content of the inner view");
            gcheck_eq!(LAYOUT | CONTENT, lib(|| x.calculate_layout()).size(), lib(|| x.inn().calculate_layout()).size(), "size reported by wrapper and inner view");
            host(|| drop(a));
        });
        // mutation through the inner view, cell by cell, or all at once
        let cs = cells::<X::Inner>(&v);
        let k = choose(cs.len() + 2);
        op();
        if k == 0 {
            let mut f = |l: usize, i: usize, x: u64| x.rotate_left(9) ^ (l as u64 * 11 + i as u64);
            host(|| model_set_all::<X::Inner>(&mut v, &mut f));
            px.with_mut(|x| lib(|| x.inn_mut().set_all(0, &mut f)));
            pi.with_mut(|x| lib(|| x.set_all(0, &mut f)));
        } else if k <= cs.len() {
            let (l, j) = cs[k - 1];
            let y = v[l][j] ^ 0x35_3535;
            host(|| model_set::<X::Inner>(&mut v, l, j, y));
            px.with_mut(|x| lib(|| x.inn_mut().set(l, j, y)));
            pi.with_mut(|x| lib(|| x.set(l, j, y)));
        } else {
            // the mutable inner view is the same object
            px.with_mut(|mut x| {
                let a = &*x as *const X as usize;
                let y: Pin<&mut X::Inner> = x.as_mut().inn_mut();
                gcheck_eq!(CONTENT, &*y as *const X::Inner as usize, a, "address of the mutable inner view");
            });
        }
        pi.check(&v, "bare, after mutation");
        px.check(&v, "wrapped, after mutation");
        expect_live2(&envi, &envx, 2 * tokens::<X>(&v) + pi.around() + px.around(), "mutation");
        // cloned through the wrapper or through the view
        let c = choose(2) == 1;
        if c {
            op();
            let (di, qi) = delta(|| pi.with(|t| Pl::<X::Inner>::put(0, lib(|| t.vclone()), &shapes[0], &envi)));
            let (dx, qx) = delta(|| px.with(|t| Pl::<X>::put(0, lib(|| X::wrap(t.inn().vclone())), &shapes[0], &envx)));
            gcheck_eq!(CONTENT | TOK, dx, di, "{} by cloning the wrapped and the bare object", WHAT);
            qx.check(&v, "wrapped clone");
            qi.check(&v, "bare clone");
            lib(|| drop((qx, qi)));
        }
        op();
        let (di, ()) = delta(|| lib(|| drop(pi)));
        let (dx, ()) = delta(|| lib(|| drop(px)));
        gcheck_eq!(CONTENT | TOK, dx, di, "{} by destroying the wrapped and the bare object", WHAT);
        expect_live2(&envi, &envx, 0, "destroying both");
        host(|| drop((v, cs)));
    }
    drop(envi);
    drop(envx);
}
fn expect_live2(a: &Env, b: &Env, n: i64, what: &str) {
    gcheck_eq!(TOK | TOKLEAK, mc::tok::live(), a.tok.get() + b.tok.get() + n, "live values with destructors after {}", what);
    a.check_guards();
    b.check_guards();
    stop_if_violated();
}
/// The same history on wrapped and bare objects.
fn hist<X: Wrap, J: Ix>(ops: &[Op], depth: usize, shapes: &[Vec<usize>]) {
    let envi = Env::new();
    let envx = Env::new();
    {
        let mut wi: World<X::Inner, J> = World::new(&envi, shapes);
        let mut wx: World<X, J> = World::new(&envx, shapes);
        wi.flat = true;
        wx.flat = true;
        let (mut li, mut lx) = (0, 0);
        let other = |n: i64| OTHER.with(|o| o.set(n));
        for _ in 0..depth {
            let en: Vec<Op> = host(|| ops.iter().copied().filter(|&o| wi.enabled(o)).collect());
            let o = en[choose(en.len())];
            host(|| drop(en));
            other(lx);
            let (di, ()) = delta(|| wi.apply(o));
            li += di[0] - di[1];
            other(li);
            let (dx, ()) = delta(|| wx.apply(o));
            lx += dx[0] - dx[1];
            let ar = matches!(o, BoxToArena | OwnNew(..) | OwnMove | TakeToArena | BadArena(_) | Push(_, 2) | BoxNew(_, 2) | Abandon(_, 2) | Extend(..));
            gcheck_eq!(CONTENT | TOK, no_arena(dx, ar), no_arena(di, ar), "{} by {:?} with wrapped and bare objects", WHAT, o);
            for (si, sx) in [(&wi.a, &wx.a), (&wi.b, &wx.b)] {
                let (si, sx) = (si.seq.as_ref().unwrap(), sx.seq.as_ref().unwrap());
                gcheck_eq!(CONTENT, (sx.len(), sx.offset(), sx.capacity_in_offsets()), (si.len(), si.offset(), si.capacity_in_offsets()), "length, offset and capacity of the sequence of wrappers and of bare objects");
                for (i, (a, b)) in si.iter().zip(sx.iter()).enumerate() {
                    let (ra, rb) = (read::<X::Inner>(a), read::<X::Inner>(b.inn()));
                    gcheck_eq!(CONTENT, &rb, &ra, "element {}, wrapped and bare", i);
                    host(|| drop((ra, rb)));
                }
            }
            wx.observe(0);
            stop_if_violated();
        }
        other(lx);
        let (di, ()) = delta(|| wi.finish());
        li += di[0] - di[1];
        other(li);
        let (dx, ()) = delta(|| wx.finish());
        other(0);
        gcheck_eq!(CONTENT | TOK, [dx[0], dx[1], dx[2]], [di[0], di[1], di[2]], "values made, destroyed, cloned by the end of the history with wrapped and bare objects");
    }
    drop(envi);
    drop(envx);
}
fn ops() -> Vec<Op> {
    vec![
        Push(0, 0), Push(1, 1), Push(2, 2), Push(1, 3), BoxNew(2, 0), BoxNew(1, 2), BoxToA, BoxToArena, BoxClone, BoxRaw, BoxDrop, BoxSet, OwnNew(2, 0), OwnToA, OwnToBox, OwnRaw, OwnDrop, OwnSet, OwnLeak,
        TakeMove(1), TakeToBox, TakeToArena, TakeDrop(1), TakeForget(1), Extend(2, 0), Collect, ExtendFromA, WriteLast, SetAll, CloneToB, CloneToBox, BadPush(1), OverPush(true), BadBox(1), BadArena(1), Abandon(1, 0), Abandon(2, 2),
    ]
}
fn sec<X: Wrap + for<'a> VClone<'a>>(v: &mut Vec<Section>, t: Tier) {
    let shapes = shapes_upto::<X>(t.pick(30, 100));
    v.push(Section { name: format!("build {} {} shapes", X::name(), shapes.len()), dev: 0, body: Box::new(move || build::<X>(&shapes)) });
}
fn lar<X: Wrap + for<'a> VClone<'a>>(v: &mut Vec<Section>, ladder: &[usize]) {
    let shapes = mc::scale::lens::<X>(ladder);
    v.push(Section { name: format!("large {} {} shapes up to {}", X::name(), shapes.len(), ladder[ladder.len() - 1]), dev: 0, body: Box::new(move || build::<X>(&shapes)) });
}
fn his<X: Wrap + for<'a> VClone<'a>, J: Ix>(v: &mut Vec<Section>, t: Tier, d: usize) {
    sec::<X>(v, t);
    let shapes = pick_shapes::<X>(3);
    v.push(Section { name: format!("history {} depth {}", X::name(), d), dev: 0, body: Box::new(move || hist::<X, J>(&ops(), d, &shapes)) });
}
fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    let v_ = &mut v;
    let d = t.pick(3, 4);
    his::<Words, C>(v_, t, d + 1);
    his::<Pair<u8, T8>, U>(v_, t, d + 1);
    sec::<Pair<T16, u16>>(v_, t);
    sec::<Pair<A64, u8>>(v_, t);
    his::<Name<u8>, C>(v_, t, d);
    sec::<Name<usize>>(v_, t);
    his::<Table<3>, U>(v_, t, d);
    sec::<W<FixedLen<u8>>>(v_, t);
    sec::<W<FixedLen<T8>>>(v_, t);
    sec::<W<FixedLen<()>>>(v_, t);
    his::<W<FixedLen<TZ>>, C>(v_, t, d);
    sec::<W<FixedLen<T64>>>(v_, t);
    sec::<W<Array<u64, u8>>>(v_, t);
    his::<W<Array<T12, u8>>, C>(v_, t, d + 1);
    sec::<W<Array<T16, u64>>>(v_, t);
    sec::<W<Array<TZ, u16>>>(v_, t);
    his::<W<Array<A64, u8>>, U>(v_, t, d);
    sec::<W<Str>>(v_, t);
    his::<W<Str<u16>>, C>(v_, t, d);
    sec::<W<Tup2<FixedLen<T16>, Array<T8, u8>>>>(v_, t);
    his::<W<Tup3<FixedLen<u8>, Array<T8, u16>, Str<u8>>>, C>(v_, t, d);
    sec::<W<Tup4<Str<u8>, FixedLen<T8>, Str<u8>, FixedLen<u64>>>>(v_, t);
    sec::<W<Tup5<FixedLen<T2>, FixedLen<T8>, FixedLen<T12>, FixedLen<T16>, FixedLen<T64>>>>(v_, t);
    his::<W<Tup2<W<FixedLen<u8>>, W<Array<T8, u8>>>>, U>(v_, t, d);
    his::<W<W<Array<T2, u8>>>, C>(v_, t, d);
    sec::<W<W<W<Tup2<Str<u8>, Array<T8, u8>>>>>>(v_, t);
    sec::<W<Words>>(v_, t);
    sec::<W<Pair<u8, T8>>>(v_, t);
    sec::<W<Name<u16>>>(v_, t);
    his::<W<few::SAd>, C>(v_, t, d);
    sec::<W<few::SAe>>(v_, t);
    sec::<W<few::SAf>>(v_, t);
    let l = t.pick(&[257, 65537, (1 << 20) + 5][..], &[255, 257, 4096, 4099, 65535, 65537, (1 << 20) - 1, (1 << 20) + 5]);
    lar::<W<Array<u8, u32>>>(v_, l);
    lar::<W<Str<u32>>>(v_, &l[..l.len() - 1]);
    lar::<W<Tup2<Array<u16, u32>, FixedLen<T8>>>>(v_, &l[..l.len() - 1]);
    lar::<W<W<Array<T12, u16>>>>(v_, &[257, 4097]);
    v
}
fn main() {
    set_mask(CONTENT | TOK | TOKLEAK | LAYOUT);
    mc::driver::main(
        Meta {
            id: "C16",
            level: "model_checking",
            rule: "every shape x route of the inner initializer x place x mutation (x clone) done in lockstep on a wrapper and on the bare inner type, and every history over 37 operations on two sequences, a box and an arena object done in lockstep; contents, sizes, addresses of the views, offsets, capacities, and the numbers of values made, destroyed and cloned and of storage requested must agree after every operation",
            bounds: "32 wrapper types (without generics, with type, defaulted, bounded and const generics, around every kind of inner type, around wrappers); up to 30 shapes (100 thorough); 4 wrapper types with parts of up to 4097, 65537 or 1048581 cells; histories of 3 or 4 operations (4 or 5 thorough) for 12 of them".into(),
            assumptions: &[],
        },
        secs,
    );
}
