use mc::driver::*;
use mc::explore::*;
use mc::subj::*;
use mc::world::{Op::*, *};
use mc::zoo::*;

fn all() -> Vec<Op> {
    vec![
        Push(1, 0), Push(2, 1), Push(1, 2), Push(2, 3), BoxNew(2, 0), BoxToA, BoxToArena, BoxClone, BoxRaw, BoxDrop, BoxRebox, BoxLeak, OwnNew(2, 0), OwnToA,
        OwnToBox, OwnRaw, OwnDrop, OwnLeak, OwnMove, TakeMove(1), TakeToBox, TakeToArena, TakeDrop(0), TakeDrop(1), TakeDrop(2), TakeForget(0), TakeForget(1), Extend(3, 3), Collect,
        ExtendFromA, WriteLast, SetAll, BoxSet, OwnSet, CloneToB, DropA, Abandon(2, 1), Abandon(2, 2), Abandon(2, 3),
    ]
}
/// owners handing one object around
fn chain() -> Vec<Op> {
    vec![BoxNew(2, 0), BoxToA, BoxToArena, BoxRaw, BoxDrop, OwnToA, OwnToBox, OwnRaw, OwnLeak, OwnMove, TakeToBox, TakeToArena, Push(1, 0)]
}
fn seqs() -> Vec<Op> {
    vec![Push(0, 0), Push(1, 0), Push(2, 0), TakeMove(1), TakeDrop(1), TakeForget(1), Collect, DropA, WriteFirst]
}
/// every nested way of supplying every part, once built and once abandoned
fn deep<T: Subj>(v: &mut Vec<Section>) {
    for (n, o) in [("abandoned initializers", AbandonDeep(1)), ("pushed", PushDeep(1)), ("boxed", BoxNewDeep(2))] {
        v.push(hist_section::<T, C>(n, vec![o], 1, 3));
    }
}
fn small<T: Subj>(v: &mut Vec<Section>, t: Tier) {
    v.push(hist_section::<T, U>("all", all(), t.pick(3, 4), 3));
    v.push(hist_section::<T, C>("all", all(), 2, 3));
    v.push(hist_section::<T, U>("chain", chain(), t.pick(5, 6), 3));
    v.push(hist_section::<T, U>("seqs", seqs(), t.pick(4, 6), 3));
    v.push(hist_section::<T, C>("seqs", seqs(), t.pick(5, 6), 3));
    deep::<T>(v);
}
fn rest<T: Subj>(v: &mut Vec<Section>, t: Tier) {
    v.push(hist_section::<T, U>("all", all(), t.pick(2, 3), 3));
    v.push(hist_section::<T, U>("chain", chain(), t.pick(3, 5), 3));
    v.push(hist_section::<T, C>("seqs", seqs(), t.pick(3, 5), 3));
    deep::<T>(v);
}
/// a single part that is ever destroyed, in every position, also one without a size
fn sole<T: Subj>(v: &mut Vec<Section>) {
    v.push(hist_section::<T, U>("all", all(), 1, 3));
    v.push(hist_section::<T, U>("seqs", seqs(), 3, 3));
}
macro_rules! soles {
    ($v:expr, $($e:ty),*) => {$(
        sole::<W<$e>>($v);
        sole::<Tup2<$e, Str<u8>>>($v);
        sole::<Tup2<FixedLen<u16>, $e>>($v);
        sole::<Tup3<$e, FixedLen<u32>, Str<u8>>>($v);
        sole::<Tup3<Str<u8>, $e, FixedLen<u32>>>($v);
        sole::<Tup3<Array<u16, u8>, FixedLen<u8>, $e>>($v);
        sole::<Tup4<$e, Str<u8>, FixedLen<u16>, Array<u8, u8>>>($v);
        sole::<Tup4<FixedLen<u8>, $e, Str<u8>, FixedLen<u16>>>($v);
        sole::<Tup4<Str<u8>, FixedLen<u8>, $e, Str<u8>>>($v);
        sole::<Tup4<Str<u8>, Array<u16, u8>, FixedLen<u64>, $e>>($v);
        sole::<Tup5<$e, FixedLen<u8>, Str<u8>, FixedLen<u16>, FixedLen<u8>>>($v);
        sole::<Tup5<FixedLen<u8>, $e, FixedLen<u16>, Str<u8>, FixedLen<u8>>>($v);
        sole::<Tup5<Str<u8>, FixedLen<u8>, $e, FixedLen<u16>, FixedLen<u8>>>($v);
        sole::<Tup5<FixedLen<u8>, FixedLen<u8>, Str<u8>, $e, FixedLen<u16>>>($v);
        sole::<Tup5<FixedLen<u8>, Str<u8>, FixedLen<u8>, FixedLen<u64>, $e>>($v);
    )*};
}
fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    mc::zoo_tok!(small, &mut v, t);
    mc::zoo_tok_rest!(rest, &mut v, t);
    soles!(&mut v, FixedLen<TZ>, Array<T2, u8>);
    mc::scale::large(&mut v, t);
    v
}

fn main() {
    set_mask(TOK | TOKLEAK);
    mc::driver::main(
        Meta {
            id: "C04",
            level: "model_checking",
            rule: "every history of creating, handing over, cloning, mutating, taking out, leaking, abandoning and dropping objects up to the depth; a ledger of every value with a destructor is compared with the model after every operation",
            bounds: "62 types holding values with destructors (sizes 0..64, alignments 1..64, in fixed parts, arrays, tuples, wrappers, macro structs); alphabets of 39, 13 and 9 operations to the depth in each section's name; all nested initializer routes one object deep; 10 types with parts of up to 65537 cells (3 of them up to 1048581 or 4194313; thorough 14 types) and sequences of up to 65537 elements (131073 thorough)".into(),
            assumptions: &[],
        },
        secs,
    );
}
