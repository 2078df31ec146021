use mc::driver::*;
use mc::explore::*;
use mc::sim::*;
use mc::subj::*;
use mc::world::{Op::*, *};
use mc::zoo::*;

fn all() -> Vec<Op> {
    vec![
        Push(0, 0), Push(1, 1), Push(2, 2), Push(3, 3), BoxNew(1, 0), BoxNew(3, 0), BoxToA, BoxToArena, BoxClone, BoxRaw, BoxDrop, BoxRebox, OwnNew(1, 0), OwnNew(3, 0), OwnToA,
        OwnToBox, OwnRaw, OwnDrop, OwnLeak, OwnMove, TakeMove(1), TakeToBox, TakeToArena, TakeDrop(1), TakeForget(1), Extend(3, 1), Collect,
        ExtendFromA, WriteFirst, WriteLast, SetAll, BoxSet, OwnSet, CloneToB, DropA, BadPush(2), OverPush(false), BadArena(1), Abandon(2, 1), Abandon(2, 2), Abandon(2, 3), LookupAll,
    ]
}
fn seqs() -> Vec<Op> {
    vec![Push(0, 0), Push(1, 0), Push(2, 0), TakeMove(1), TakeDrop(0), Collect, DropA, SetAll]
}
fn chain() -> Vec<Op> {
    vec![BoxNew(2, 0), BoxToA, BoxToArena, BoxRaw, BoxDrop, OwnToA, OwnToBox, OwnRaw, OwnMove, TakeToBox, TakeToArena, Push(1, 0)]
}
fn deep<T: Subj>(v: &mut Vec<Section>) {
    for (n, o) in [("abandoned initializers", AbandonDeep(1)), ("pushed", PushDeep(1)), ("boxed", BoxNewDeep(2))] {
        v.push(hist_section::<T, C>(n, vec![o], 1, 3));
    }
}
/// one object of every small shape in every place, then many in one sequence
fn shapes<T: Subj>(v: &mut Vec<Section>, n: usize) {
    let sh = mc::alloc::host(|| {
        let mut s = T::shapes(&(0..n).collect::<Vec<_>>());
        if s.len() > 400 {
            s = T::shapes(&[0, 1, 2, 5]);
        }
        if s.len() > 1500 {
            s = T::shapes(&[0, 1, 3]);
        }
        s
    });
    v.push(Section {
        name: format!("every shape {} ({})", T::name(), sh.len()),
        dev: 0,
        body: Box::new(move || {
            let env = Env::new();
            {
                let mut w: World<T, C> = World::new(&env, &sh);
                let s = choose(sh.len());
                match choose(4) {
                    0 => {
                        w.apply(BoxNew(s, 0));
                        w.observe(0);
                        w.apply(BoxSet);
                        w.observe(0);
                        w.apply(BoxClone);
                        w.observe(0);
                        w.apply(BoxToA);
                        w.observe(0);
                        w.apply(SetAll);
                        w.observe(0);
                    }
                    1 => {
                        w.apply(OwnNew(s, 0));
                        w.observe(0);
                        w.apply(OwnSet);
                        w.observe(0);
                        w.apply(OwnToBox);
                        w.observe(0);
                        w.apply(BoxToArena);
                        w.observe(0);
                    }
                    2 => {
                        for i in 0..6 {
                            w.apply(Push((s + i) % sh.len(), 0));
                        }
                        w.observe(0);
                        w.apply(SetAll);
                        w.observe(0);
                        w.apply(TakeMove(6));
                        w.observe(0);
                        w.apply(CloneToB.min_enabled(&w));
                        w.observe(0);
                    }
                    _ => {
                        w.apply(Push(s, 0));
                        w.apply(TakeDrop(1));
                        w.apply(Push(s, 2));
                        w.observe(0);
                        w.apply(WriteLast);
                        w.observe(0);
                        w.apply(Collect);
                        w.observe(0);
                    }
                }
                w.finish();
            }
            drop(env);
        }),
    });
}
trait MinEnabled {
    fn min_enabled<'e, T: Subj, I: Ix>(self, w: &World<'e, T, I>) -> Op;
}
impl MinEnabled for Op {
    fn min_enabled<'e, T: Subj, I: Ix>(self, w: &World<'e, T, I>) -> Op {
        if w.enabled(self) { self } else { Swap }
    }
}
fn small<T: Subj>(v: &mut Vec<Section>, t: Tier) {
    v.push(hist_section::<T, C>("all", all(), t.pick(3, 4), 4));
    v.push(hist_section::<T, U>("all", all(), 2, 4));
    v.push(hist_section::<T, U>("chain", chain(), t.pick(4, 6), 3));
    v.push(hist_section::<T, U>("seqs", seqs(), t.pick(5, 7), 3));
    v.push(hist_section::<T, C>("seqs", seqs(), t.pick(5, 7), 3));
    deep::<T>(v);
    shapes::<T>(v, t.pick(10, 40));
}
fn rest<T: Subj>(v: &mut Vec<Section>, t: Tier) {
    v.push(hist_section::<T, C>("all", all(), t.pick(2, 3), 4));
    v.push(hist_section::<T, U>("chain", chain(), t.pick(3, 5), 3));
    v.push(hist_section::<T, U>("seqs", seqs(), t.pick(4, 6), 3));
    v.push(hist_section::<T, C>("seqs", seqs(), t.pick(4, 6), 3));
    deep::<T>(v);
    shapes::<T>(v, t.pick(10, 24));
}
fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    mc::zoo_small!(small, &mut v, t);
    mc::zoo_rest!(rest, &mut v, t);
    mc::scale::large(&mut v, t);
    v
}

fn main() {
    set_mask(MEM | LEAK);
    mc::driver::main(
        Meta {
            id: "C05",
            level: "model_checking",
            rule: "every history over the alphabet up to the depth under a checking allocator: redzones, exact size and alignment on release, double release, reads of released (0xDD) or never-written (0xA5) bytes through changed contents, block behind each box, leaks; plus every small shape in every place; plus a smaller enumeration of histories under the Miri interpreter, which judges every single access (coverage.interpreted)",
            bounds: "40 element types x 2 indexing modes; alphabets of 42, 12 and 8 operations to the depth in each section's name; 10 types with parts of up to 65537 cells (3 of them up to 1048581 or 4194313; thorough 14 types) and sequences of up to 65537 elements (131073 thorough)".into(),
            assumptions: &[],
        },
        secs,
    );
}
