use mc::alloc::{host, lib, live_blocks};
use mc::driver::*;
use mc::explore::*;
use mc::place::*;
use mc::sim::*;
use mc::subj::*;
use mc::tok::{births, clones, drops};
use mc::zoo::*;
use mc::{gcheck, gcheck_eq};
use varlen::{Owned, Seq, VBox, VClone};

/// Hand the object over to `f` as an initializer; what is around it stays here.
fn mv<'e, T: Subj, R>(p: Pl<'e, T>, env: &'e Env, f: impl FnOnce(AnyInit<'_, T>) -> R) -> R {
    match p {
        Pl::Box(b) => f(AnyInit::Boxed(b)),
        Pl::Own(o) => f(AnyInit::Owned(o)),
        Pl::Seq(mut s, v) => {
            let same = |o: &Owned<'_, T>, what: &str| {
                let got = read::<T>(o);
                gcheck_eq!(CONTENT, &got, &v, "neighbour {}", what);
                host(|| drop(got));
            };
            let cap = s.capacity_in_offsets();
            let r = match choose(4) {
                0 => {
                    log(|| "taken out, the first destroyed, the last still in the sequence".into());
                    let mut it = lib(|| s.take_elems());
                    let o = match lib(|| it.nth(1)) {
                        Some(o) => o,
                        None => mc::fail!("the element is gone from its sequence"),
                    };
                    let r = f(AnyInit::Owned(o));
                    match lib(|| it.next()) {
                        Some(o) => {
                            same(&o, "taken out after the move");
                            lib(|| drop(o));
                        }
                        None => mc::fail!("the last element is gone from its sequence"),
                    }
                    gcheck!(CONTENT, lib(|| it.next()).is_none(), "too many elements");
                    lib(|| drop(it));
                    r
                }
                1 => {
                    log(|| "taken out, the others destroyed with the iterator before the move".into());
                    let mut it = lib(|| s.take_elems());
                    let o = match lib(|| it.nth(1)) {
                        Some(o) => o,
                        None => mc::fail!("the element is gone from its sequence"),
                    };
                    lib(|| drop(it));
                    f(AnyInit::Owned(o))
                }
                k => {
                    log(|| format!("taken out with its neighbours, which are destroyed {} the move", if k == 2 { "after" } else { "before" }));
                    let mut it = lib(|| s.take_elems());
                    let (a, o, b) = match lib(|| (it.next(), it.next(), it.next())) {
                        (Some(a), Some(o), Some(b)) => (a, o, b),
                        _ => mc::fail!("elements are gone from their sequence"),
                    };
                    lib(|| drop(it));
                    if k == 2 {
                        let r = f(AnyInit::Owned(o));
                        same(&a, "before");
                        same(&b, "after");
                        lib(|| drop((b, a)));
                        r
                    } else {
                        lib(|| drop(a));
                        lib(|| drop(b));
                        f(AnyInit::Owned(o))
                    }
                }
            };
            // the sequence is empty and usable
            gcheck_eq!(CONTENT, (s.len(), s.offset(), s.capacity_in_offsets()), (0, 0, cap), "sequence after its elements were taken out");
            let i = host(|| T::direct(&v, &mut |_| 0, env));
            lib(|| s.push(i));
            let mut n = 0;
            for e in s.iter() {
                let got = read::<T>(e);
                gcheck_eq!(CONTENT, &got, &v, "element pushed after the others were taken out");
                host(|| drop(got));
                n += 1;
            }
            gcheck_eq!(CONTENT, n, 1, "elements after pushing one");
            lib(|| drop(s));
            host(|| drop(v));
            r
        }
        Pl::Tup(_) | Pl::Wrap(_) | Pl::Field(_) | Pl::Raw(_) => unreachable!(),
    }
}
fn boxes<T: Subj>(p: &Pl<T>, size: usize) -> Option<i64> {
    Some(match p {
        Pl::Box(_) => (size > 0) as i64,
        Pl::Own(_) => 0,
        _ => return None,
    })
}
fn body<T: Subj + for<'a> VClone<'a>>(shapes: &[Vec<usize>], depth: usize) {
    let sh = &shapes[choose(shapes.len())];
    let env = Env::new();
    {
        let mut v = host(|| T::make(sh, 3));
        let small = &shapes[0];
        let size = r_size::<T>(sh);
        let nbt = 2 * tokens::<T>(&host(|| T::make(small, 0xabcd)));
        let init = host(|| T::direct(&v, &mut |_| 0, &env));
        let place = choose(4);
        log(|| format!("{} in a {}", show(&v), NAMES[place]));
        let mut p = Pl::put(place, init, small, &env);
        for step in 0..depth {
            match choose(3) {
                1 => {
                    log(|| "write every cell".into());
                    let mut f = |l: usize, i: usize, x: u64| x.rotate_left(9) ^ (l as u64 * 11 + i as u64 + step as u64);
                    host(|| model_set_all::<T>(&mut v, &mut f));
                    p.with_mut(|t| lib(|| t.set_all(0, &mut f)));
                }
                2 => match p {
                    Pl::Box(b) => {
                        log(|| "box through a raw pointer".into());
                        let raw = lib(|| unsafe { b.into_raw() });
                        p = Pl::Box(lib(|| unsafe { VBox::from_raw(raw) }));
                    }
                    Pl::Own(o) => {
                        log(|| "arena object through a raw pointer".into());
                        let raw = lib(|| unsafe { o.into_raw() });
                        p = Pl::Own(lib(|| unsafe { Owned::from_raw(raw) }));
                    }
                    q => {
                        // the sequence itself moves
                        let b = host(|| Box::new(q));
                        p = host(|| *b);
                    }
                },
                _ => {}
            }
            p.check(&v, "before the move");
            let last = step + 1 == depth;
            let dest = choose(if last { PLACES + 1 } else { 4 });
            op();
            let (b0, c0, d0, blocks0) = (births(), clones(), drops(), live_blocks());
            let had = p.around();
            let src = boxes(&p, size);
            if dest == PLACES {
                log(|| "into a pair".into());
                let w = host(|| T::make(small, 91));
                let r = choose(3);
                let flip = choose(2) == 1;
                let second = any_route::<T>(r, &w, &mut |_| 0, &env);
                let bb = mv(p, &env, |i| {
                    if flip {
                        lib(|| VBox::<Tup2<T, T>>::new(tup2::Init(second, i)))
                    } else {
                        lib(|| VBox::<Tup2<T, T>>::new(tup2::Init(i, second)))
                    }
                });
                let (x, y) = if flip { (bb.refs().1, bb.refs().0) } else { (bb.refs().0, bb.refs().1) };
                let (gx, gy) = (read::<T>(x), read::<T>(y));
                gcheck_eq!(CONTENT, &gx, &v, "object moved into a pair");
                gcheck_eq!(CONTENT, &gy, &w, "the other object moved into a pair");
                host(|| drop((gx, gy)));
                expect_live(&env, tokens::<T>(&v) + tokens::<T>(&w), "moving into a pair");
                lib(|| drop(bb));
                host(|| drop(w));
                expect_live(&env, 0, "destroying the pair");
                host(|| drop(v));
                env.check_guards();
                drop(env);
                return;
            }
            log(|| format!("into a {}", NAMES[dest]));
            let was_seq = had > 0 || matches!(p, Pl::Seq(..));
            p = mv(p, &env, |i| Pl::put(dest, i, small, &env));
            let around = p.around();
            // only neighbours in new or old sequences come and go
            let made = births() as i64 - b0 as i64;
            let gone = drops() as i64 - d0 as i64;
            let seq_extra = if was_seq { nbt / 2 } else { 0 };
            gcheck_eq!(TOK | TOKLEAK, (made, gone, clones() - c0), (around + seq_extra, had + seq_extra, 0), "values made, destroyed and cloned during a move");
            if let (Some(a), Some(b)) = (src, boxes(&p, size)) {
                // the arena may take one more chunk
                let d = live_blocks() as i64 - blocks0 as i64;
                let d = if dest == 1 && d == b - a + 1 { b - a } else { d };
                gcheck_eq!(LEAK, d, b - a, "change in the number of blocks held, moving from box/arena to box/arena");
            }
            p.check(&v, "after the move");
            expect_live(&env, tokens::<T>(&v) + around, "the move");
            env.check_guards();
            let mut h = H::new(step as u64);
            h.bytes(p.name().as_bytes());
            for l in &v {
                h.u(l.len() as u64);
                for c in l {
                    h.u(*c);
                }
            }
            state(h.get(), 0);
            stop_if_violated();
        }
        // still an ordinary object where it ended up
        let mut f = |l: usize, i: usize, x: u64| !x ^ (l as u64 * 5 + i as u64);
        host(|| model_set_all::<T>(&mut v, &mut f));
        p.with_mut(|t| lib(|| t.set_all(0, &mut f)));
        p.check(&v, "written after the moves");
        lib(|| drop(p));
        host(|| drop(v));
        expect_live(&env, 0, "destroying the object");
    }
    drop(env);
}
/// All elements of one sequence moved to another in one go, or a box at a time.
fn bulk<T: Subj + for<'a> VClone<'a>>(shapes: &[Vec<usize>], max: usize) {
    let env = Env::new();
    {
        let n = choose(max + 1);
        let mut a: Sim<T, C> = Sim::new();
        let mut b: Sim<T, U> = Sim::new();
        for _ in 0..n {
            let v = a.val(&shapes[choose(shapes.len())]);
            let i = host(|| T::direct(&v, &mut |_| 0, &env));
            a.push(v, i);
        }
        for round in 0..2 {
            let how = choose(4);
            log(|| format!("round {}: {}", round, ["extend with the owning iterator", "push one by one", "through boxes", "collect"][how]));
            let model = host(|| a.model.clone());
            let (b0, d0) = (births(), drops());
            match how {
                0 => lib(|| b.seq.as_mut().unwrap().extend(a.seq.as_mut().unwrap().take_elems())),
                1 => {
                    for o in lib(|| a.seq.as_mut().unwrap().take_elems()) {
                        lib(|| b.seq.as_mut().unwrap().push(o));
                    }
                }
                2 => {
                    let bs: Vec<VBox<T>> = lib(|| a.seq.as_mut().unwrap().take_elems()).map(|o| lib(|| VBox::new(o))).fold(host(Vec::new), |mut v, x| {
                        host(|| v.push(x));
                        v
                    });
                    lib(|| b.seq.as_mut().unwrap().extend(bs));
                }
                _ => {
                    let s: Seq<T, U> = lib(|| a.seq.as_mut().unwrap().take_elems().collect());
                    b.drop_seq();
                    b.seq = Some(s);
                }
            }
            gcheck_eq!(TOK, births() - b0, 0, "values made by moving");
            if how != 3 {
                gcheck_eq!(TOK, drops() - d0, 0, "values destroyed by moving");
            }
            a.clear_model();
            for v in model {
                b.appended(v);
            }
            a.observe(0);
            b.observe(0);
            expect_live(&env, a.tokens() + b.tokens(), "moving all elements");
            // and back
            let model = host(|| b.model.clone());
            lib(|| a.seq.as_mut().unwrap().extend(b.seq.as_mut().unwrap().take_elems()));
            b.clear_model();
            for v in model {
                a.appended(v);
            }
            a.observe(0);
            b.observe(0);
        }
        a.drop_seq();
        b.drop_seq();
        expect_live(&env, 0, "destroying both sequences");
    }
    drop(env);
}
fn sec<T: Subj + for<'a> VClone<'a>>(v: &mut Vec<Section>, t: Tier, depth: usize) {
    let shapes = pick_shapes::<T>(t.pick(3, 4));
    let sh = shapes.clone();
    v.push(Section { name: format!("{} {} shapes, chains of {} moves", T::name(), shapes.len(), depth), dev: 0, body: Box::new(move || body::<T>(&sh, depth)) });
    let n = t.pick(3, 4);
    v.push(Section { name: format!("{} all elements of sequences of up to {}", T::name(), n), dev: 0, body: Box::new(move || bulk::<T>(&shapes, n)) });
}
fn large<T: Subj + for<'a> VClone<'a>>(v: &mut Vec<Section>, ladder: &[usize]) {
    let mut shapes = pick_shapes::<T>(1);
    shapes.extend(mc::scale::lens::<T>(ladder));
    v.push(Section { name: format!("large {} {} shapes up to {}, chains of 1 move", T::name(), shapes.len(), ladder[ladder.len() - 1]), dev: 0, body: Box::new(move || body::<T>(&shapes, 1)) });
}
fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    mc::zoo_small!(sec, &mut v, t, t.pick(3, 4));
    mc::zoo_rest!(sec, &mut v, t, t.pick(2, 3));
    let b8: &[usize] = t.pick(&[255, 257, 4097, 65537], &[127, 129, 255, 256, 257, 511, 1023, 1025, 4096, 4097, 32769, 65535, 65536, 65537]);
    let b16: &[usize] = t.pick(&[256, 4097], &[127, 129, 255, 256, 511, 1025, 4096, 8193]);
    large::<Array<u8, u32>>(&mut v, b8);
    large::<Array<T8, u16>>(&mut v, b16);
    large::<Array<A64, u16>>(&mut v, b16);
    large::<Str<u32>>(&mut v, b8);
    large::<Tup2<FixedLen<T16>, Array<T8, u16>>>(&mut v, b16);
    large::<Tup3<FixedLen<u8>, Array<u64, u16>, Str<u32>>>(&mut v, b16);
    large::<W<Array<T12, u32>>>(&mut v, b16);
    let huge: &[usize] = t.pick(&[(1 << 20) + 5], &[(1 << 20) - 1, (1 << 20) + 5, (1 << 22) + 1]);
    large::<Array<u8, u32>>(&mut v, huge);
    large::<Tup2<Str<u32>, FixedLen<T8>>>(&mut v, huge);
    v
}
fn main() {
    set_mask(CONTENT | TOK | TOKLEAK | LEAK | OFFSET);
    mc::driver::main(
        Meta {
            id: "C20",
            level: "model_checking",
            rule: "every shape x chain of moves between box, arena, sequence and extended sequence (with the ways of taking an element out, raw-pointer round trips and writes in between) ending in any place (also tuple field, wrapper, struct field, the caller's own buffer, pair); content, size, neighbours, ledger of values and blocks compared after every move; plus wholesale moves between sequences",
            bounds: "40 types; 3 shapes (4 thorough); chains of 3 moves (4 thorough) for 10 types, 2 (3) for the rest; sequences of up to 3 elements (4 thorough) moved there and back twice; 9 types with parts of up to 65537 (2 of up to 1048581; thorough 4194305) cells, one move".into(),
            assumptions: &[],
        },
        secs,
    );
}
