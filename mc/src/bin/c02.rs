use mc::driver::*;
use mc::explore::*;
use mc::sim::*;
use mc::subj::*;
use mc::world::{Op::*, *};
use mc::zoo::*;

fn sec<T: Subj>(tag: &str, ops: Vec<Op>, depth: usize, nshapes: usize) -> Section {
    let shapes = pick_shapes::<T>(nshapes);
    let depth = depth_for::<T>(depth, nshapes);
    Section { name: format!("{} {} depth {}", tag, seq_name::<T, C>(), depth), dev: 0, body: Box::new(move || history_lookup::<T, C>(&ops, depth, &shapes)) }
}
/// Many elements, so that start marks sit at every bit position and survive several growths.
fn long<T: Subj>(v: &mut Vec<Section>, n: usize) {
    let shapes = pick_shapes::<T>(5);
    v.push(Section {
        name: format!("long {} up to {}", seq_name::<T, C>(), n),
        dev: 0,
        body: Box::new(move || {
            let env = Env::new();
            {
                let mut w: World<T, C> = World::new(&env, &shapes);
                let (a, b) = (choose(5), choose(5));
                let n = choose(n + 1);
                let end = choose(4);
                for i in 0..n {
                    w.apply(Push(if i % 3 == 2 { b } else { a }, 0));
                    w.a.observe_valid();
                }
                match end {
                    0 => {}
                    1 => w.apply(TakeDrop(n / 2)),
                    2 => w.apply(TakeForget(n.min(1))),
                    _ => w.apply(BadPush(b)),
                }
                w.observe(0);
                w.a.lookup(n % 13 == 5);
                for _ in 0..3 {
                    w.apply(Push(b, 0));
                    w.observe(0);
                }
                w.a.lookup(n % 13 == 11);
                w.finish();
            }
            drop(env);
        }),
    });
}
fn ops() -> Vec<Op> {
    vec![Push(0, 0), Push(1, 1), Push(2, 2), Push(3, 3), BadPush(2), OverPush(true), OverPush(false), TakeDrop(1), TakeForget(1), TakeMove(1), Extend(2, 0), Collect, ExtendFromA, Swap, DropA]
}
fn few() -> Vec<Op> {
    vec![Push(0, 0), Push(1, 0), Push(2, 0), BadPush(1), TakeDrop(0), TakeForget(1)]
}
fn small<T: Subj>(v: &mut Vec<Section>, t: Tier) {
    v.push(sec::<T>("few", few(), t.pick(5, 7), 3));
    v.push(sec::<T>("all", ops(), t.pick(3, 4), 4));
    long::<T>(v, t.pick(40, 90));
}
fn rest<T: Subj>(v: &mut Vec<Section>, t: Tier) {
    v.push(sec::<T>("few", few(), t.pick(4, 6), 3));
    v.push(sec::<T>("all", ops(), t.pick(2, 3), 4));
    long::<T>(v, t.pick(24, 60));
}
fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    mc::zoo_small!(small, &mut v, t);
    mc::zoo_rest!(rest, &mut v, t);
    mc::scale::large(&mut v, t);
    mc::scale::volumes(&mut v, t);
    v
}

fn main() {
    set_mask(VALID);
    mc::driver::main(
        Meta {
            id: "C02",
            level: "model_checking",
            rule: "every operation history over the alphabet up to the depth on sequences with checked indexing; after every operation is_offset_valid is asked for every offset from 0 to capacity+130 and for extreme values, at the end from_offset and from_offset_mut for every offset",
            bounds: "40 element types; alphabets of 6 and 15 operations (pushes of several sizes and routes, failed pushes, partial and forgotten takes, moves between two sequences) to the depth in each section's name; histories of up to 90 pushes; 10 types with parts of up to 65537 cells (3 of them up to 1048581 or 4194313; thorough 14 types) and sequences of up to 65537 elements (131073 thorough), without a model of every cell of up to 2621440 alignment units (41943040 thorough)".into(),
            assumptions: &["zero-size elements occupy no memory and have no valid offset"],
        },
        secs,
    );
}
