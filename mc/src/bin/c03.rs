use mc::alloc::{host, lib};
use mc::driver::*;
use mc::explore::*;
use mc::sim::*;
use mc::subj::*;
use mc::world::{Op::*, *};
use mc::zoo::*;
use varlen::{Owned, VBox};

fn ops() -> Vec<Op> {
    vec![Push(0, 0), Push(1, 1), Push(2, 2), Push(3, 3), BadPush(2), OverPush(false), TakeDrop(1), TakeMove(1), Extend(3, 2), Collect, ExtendFromA, Swap, DropA, SetAll]
}
fn few() -> Vec<Op> {
    vec![Push(0, 0), Push(1, 0), Push(2, 0), TakeDrop(0)]
}
/// Every offset recorded before any push still names its element at the end.
fn long<T: Subj, I: Ix>(v: &mut Vec<Section>, n: usize) {
    let shapes = pick_shapes::<T>(5);
    v.push(Section {
        name: format!("long {} up to {}", seq_name::<T, I>(), n),
        dev: 0,
        body: Box::new(move || {
            let env = Env::new();
            {
                let mut w: World<T, I> = World::new(&env, &shapes);
                let (a, b) = (choose(5), choose(5));
                let (n, m) = (choose(n + 1), choose(6));
                for i in 0..n {
                    w.apply(Push(if i % 4 == 3 { b } else { a }, 0));
                    if i % 8 == 7 {
                        w.observe(0);
                    }
                }
                w.observe(0);
                for _ in 0..m {
                    w.apply(Push(b, 1));
                }
                w.observe(0);
                w.finish();
            }
            drop(env);
        }),
    });
}
/// References that are not elements of this sequence are refused.
fn foreign<T: Subj, I: Ix>(v: &mut Vec<Section>, n: usize) {
    let shapes = pick_shapes::<T>(4);
    v.push(Section {
        name: format!("foreign references {} up to {}", seq_name::<T, I>(), n),
        dev: 0,
        body: Box::new(move || {
            let env = Env::new();
            {
                let mut w: World<T, I> = World::new(&env, &shapes);
                let (na, nb) = (choose(n + 1), choose(n + 1));
                let (a, b) = (choose(4), choose(4));
                let taken = choose(2);
                for i in 0..na {
                    w.apply(Push(if i % 2 == 0 { a } else { b }, 0));
                }
                for i in 0..nb {
                    w.apply(PushB(if i % 2 == 0 { b } else { a }));
                }
                w.apply(BoxNew(a, 0));
                w.apply(OwnNew(b, 0));
                op();
                // where the elements of A were: stale addresses after they are taken out
                let starts: Vec<usize> = host(|| w.a.seq.as_ref().unwrap().iter().map(|e| e as *const T as usize).collect());
                let stale = taken == 1 && na > 0;
                let size0 = host(|| w.a.model.iter().map(|v| r_size::<T>(&lens_of::<T>(v))).min().unwrap_or(0));
                if stale {
                    w.apply(TakeDrop(0));
                }
                let sa = w.a.seq.as_ref().unwrap();
                let sb = w.b.seq.as_ref().unwrap();
                let no = |what: &str, r: &T| {
                    let o = catch(|| sa.offset_of(r));
                    mc::gcheck!(OFFSET, o.is_none(), "offset_of({}) returned {:?} instead of being refused", what, o);
                };
                no("a boxed object", &w.bx.as_ref().unwrap().0);
                no("an arena object", &w.ow.as_ref().unwrap().0);
                for e in sb.iter() {
                    no("an element of another sequence", e);
                }
                if stale && size0 > 0 {
                    // the storage is still there; a header-sized part of it can be named by a reference
                    for &p in &starts {
                        no("the place of an element that was taken out", unsafe { &*(p as *const T) });
                    }
                }
                w.observe(0);
                host(|| drop(starts));
                w.finish();
            }
            drop(env);
        }),
    });
}
/// A box allocated with the same size and alignment right after the sequence, and sub-objects at offset 0.
fn boxes<T: Subj>(v: &mut Vec<Section>) {
    let shapes = pick_shapes::<T>(3);
    v.push(Section {
        name: format!("empty sequence {}", T::name()),
        dev: 0,
        body: Box::new(move || {
            let env = Env::new();
            {
                let s: Seq<T> = Seq::new();
                let c: IndexableSeq<T> = Seq::new();
                op();
                let lens = &shapes[choose(shapes.len())];
                let val = host(|| T::make(lens, 3));
                let i = any::<T>(&val, &mut |n| choose(n), &env);
                let which = choose(2) == 0;
                let b = if which { Some(lib(|| VBox::new(i))) } else { let o = lib(|| Owned::new_in(i, &env.bump)); no(&s, &c, &o); lib(|| drop(o)); None };
                if let Some(b) = b {
                    no(&s, &c, &b);
                    lib(|| drop(b));
                }
                mc::gcheck_eq!(OFFSET, (s.offset(), c.offset()), (0, 0), "offset() of an empty sequence");
                host(|| drop(val));
            }
            drop(env);
        }),
    });
    fn no<T: Subj>(s: &Seq<T>, c: &IndexableSeq<T>, r: &T) {
        if r_min::<T>() == 0 {
            return;
        }
        mc::gcheck!(OFFSET, catch(|| s.offset_of(r)).is_none(), "offset_of succeeded on an empty sequence");
        mc::gcheck!(OFFSET, catch(|| c.offset_of(r)).is_none(), "offset_of succeeded on an empty sequence");
    }
    fn r_min<T: Subj>() -> usize {
        host(|| T::shapes(&[0]).iter().chain(T::shapes(&[1]).iter()).map(|l| r_size::<T>(l)).min().unwrap_or(0))
    }
}
fn both<T: Subj>(v: &mut Vec<Section>, t: Tier, d: usize) {
    one::<T, U>(v, t, d);
    one::<T, C>(v, t, d);
    boxes::<T>(v);
}
fn one<T: Subj, I: Ix>(v: &mut Vec<Section>, t: Tier, d: usize) {
    v.push(hist_section::<T, I>("few", few(), t.pick(5, 7) + d, 3));
    v.push(hist_section::<T, I>("all", ops(), t.pick(2, 4) + d, 4));
    long::<T, I>(v, t.pick(25, 80));
    foreign::<T, I>(v, t.pick(2, 4));
}
fn small<T: Subj>(v: &mut Vec<Section>, t: Tier) {
    both::<T>(v, t, 1)
}
fn rest<T: Subj>(v: &mut Vec<Section>, t: Tier) {
    both::<T>(v, t, 0)
}
fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    mc::zoo_small!(small, &mut v, t);
    mc::zoo_rest!(rest, &mut v, t);
    mc::scale::large(&mut v, t);
    mc::scale::volumes(&mut v, t);
    v
}

fn main() {
    set_mask(OFFSET);
    mc::driver::main(
        Meta {
            id: "C03",
            level: "model_checking",
            rule: "every operation history over the alphabet up to the depth; after every operation each element's address, offset_of and lookup by offset are compared with offsets computed from sizes alone",
            bounds: "40 element types x 2 indexing modes, alphabets of 4 and 14 operations to the depth in each section's name; histories of up to 80 pushes; foreign references from boxes, arenas, other sequences and vacated storage; 10 types with parts of up to 65537 cells (3 of them up to 1048581 or 4194313; thorough 14 types) and sequences of up to 65537 elements (131073 thorough), without a model of every cell of up to 2621440 alignment units (41943040 thorough)".into(),
            assumptions: &["zero-size elements occupy no memory and have no offset of their own"],
        },
        secs,
    );
}
