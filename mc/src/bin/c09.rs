use mc::alloc::{host, lib};
use mc::driver::*;
use mc::explore::*;
use mc::fworld::{F::*, *};
use mc::sim::*;
use mc::subj::*;
use mc::tok::*;
use mc::zoo::*;
use mc::{check, check_eq};
use std::mem::ManuallyDrop;
use varlen::array::SizedInit;
use varlen::{Owned, VBox};

const ALL: u32 = F_MK | F_CLONE | F_DROP | F_FN | F_ITER;
fn all() -> Vec<F> {
    vec![
        Push(0, 0), Push(1, 1), Push(2, 2), Push(2, 3), Extend(2, 1), Collect, CollectNew(2), ExtendFromA, BoxNew(2, 0), BoxNew(2, 3), BoxClone, BoxDrop, BoxToA, BoxToArena, OwnNew(2, 0), OwnDrop,
        OwnToA, OwnToBox, TakeMove(1), TakeToBox, TakeDrop(0), TakeDrop(1), TakeDrop(2), CloneToB, CloneToBox, DropA, Abandon(2, 0), Abandon(2, 1), Abandon(2, 2), Look,
    ]
}
fn seqs() -> Vec<F> {
    vec![Push(1, 0), Push(2, 0), Push(1, 3), TakeDrop(1), TakeMove(1), Collect, DropA, Look]
}
fn small<T: Subj>(v: &mut Vec<Section>, t: Tier) {
    let m = Mode::Callback(ALL);
    v.push(fsection::<T, C>(m, 1, "all", all(), t.pick(2, 4), 3));
    v.push(fsection::<T, U>(m, 1, "all", all(), t.pick(2, 3), 3));
    v.push(fsection::<T, C>(m, 1, "seqs", seqs(), t.pick(4, 5), 3));
    v.push(fsection::<T, C>(m, 2, "seqs", seqs(), t.pick(3, 4), 3));
    v.push(fsection::<T, C>(m, 1, "built from parts", vec![PushDeep(t.pick(0, 1)), BoxNewDeep(0), AbandonDeep(0)], 1, 2));
    if t == Tier::Thorough {
        v.push(fsection::<T, C>(m, 1, "built from parts, then used", vec![PushDeep(0), Push(1, 0), TakeDrop(1), Look], 2, 2));
    }
}
fn rest<T: Subj>(v: &mut Vec<Section>, t: Tier) {
    let m = Mode::Callback(ALL);
    v.push(fsection::<T, C>(m, 1, "all", all(), t.pick(2, 3), 3));
    v.push(fsection::<T, C>(m, 1, "seqs", seqs(), t.pick(3, 4), 3));
    v.push(fsection::<T, C>(m, 1, "built from parts", vec![PushDeep(0), BoxNewDeep(0), AbandonDeep(0)], 1, 2));
}

/// A source of the wrong length, in every place.
fn wrong<P: Pay, L: LenN, I: Ix>() {
    let env = ManuallyDrop::new(Env::new());
    let mut w: ManuallyDrop<FWorld<Tup3<FixedLen<P>, Array<P, L>, FixedLen<P>>, I>> = ManuallyDrop::new(FWorld::new(&env, Mode::Callback(0), &[vec![1, 2, 1]]));
    let mut flat: ManuallyDrop<FWorld<W<Array<P, L>>, I>> = ManuallyDrop::new(FWorld::new(&env, Mode::Callback(0), &[vec![2]]));
    for _ in 0..choose(3) {
        w.apply(Push(0, 0));
        flat.apply(Push(0, 0));
    }
    let want = choose(5);
    let have = choose(6);
    let route = choose(ARR_ROUTES);
    // routes: 0 function (any length), 1 iterator (may be longer), 2 clone, 3 copy, 4 move
    let ok = route == 0 || want == have || (route == 1 && have > want) || (route == 4 && have > 4);
    op();
    log(|| format!("array of {} elements from a source of {} (route {}), expected to {}", want, have, route, if ok { "work" } else { "panic" }));
    let src: Vec<u64> = host(|| (0..have as u64).map(|i| (i * 37 + 5) & P::MASK).collect());
    let mut val: Vec<u64> = host(|| src.clone());
    val.resize(want, 0);
    let mk = || SizedInit(L::from_usize(want).unwrap(), arr_route::<P>(route, &src, &env));
    let refused = |r: bool, what: &str| {
        check_eq!(r, !ok, "{} refused an array of {} elements from a source of {} (route {})", what, want, have, route);
    };
    match choose(5) {
        0 => {
            let i = tup3::Init(FixedLen(host(|| P::mk(1))), mk(), FixedLen(host(|| P::mk(2))));
            let r = catch(|| lib(|| w.a.seq.as_mut().unwrap().push(i)));
            refused(r.is_none(), "a sequence");
            if r.is_some() {
                w.a.appended(host(|| vec![vec![1 & P::MASK], val.clone(), vec![2 & P::MASK]]));
            }
        }
        1 => {
            let i = tup3::Init(FixedLen(host(|| P::mk(1))), mk(), FixedLen(host(|| P::mk(2))));
            let r = catch(|| lib(|| VBox::new(i)));
            refused(r.is_none(), "a box");
            if let Some(b) = r {
                w.bx = Some((b, host(|| vec![vec![1 & P::MASK], val.clone(), vec![2 & P::MASK]])));
            }
        }
        2 => {
            let i = mk();
            let r = catch(|| lib(|| flat.a.seq.as_mut().unwrap().push(WInit(i))));
            refused(r.is_none(), "a sequence of wrappers");
            if r.is_some() {
                flat.a.appended(host(|| vec![val.clone()]));
            }
        }
        3 => {
            let i = mk();
            let r = catch(|| lib(|| Owned::<Array<P, L>>::new_in(i, &env.bump)));
            refused(r.is_none(), "an arena");
            if let Some(o) = r {
                check_eq!(read::<Array<P, L>>(&o)[0], val, "content of the arena object");
                lib(|| drop(o));
            }
        }
        _ => {
            // in the middle of an extend: what came before stays
            let n0 = w.a.model.len();
            let mut items = host(Vec::new);
            for k in 0..3 {
                let i = if k == 1 { mk() } else { SizedInit(L::from_usize(1).unwrap(), arr_route::<P>(0, &[7], &env)) };
                host(|| items.push(tup3::Init(FixedLen(P::mk(1)), i, FixedLen(P::mk(2)))));
            }
            let r = catch(|| lib(|| w.a.seq.as_mut().unwrap().extend(items)));
            refused(r.is_none(), "extend");
            for k in 0..if r.is_some() { 3 } else { 1 } {
                w.a.appended(host(|| vec![vec![1 & P::MASK], if k == 1 { val.clone() } else { vec![7 & P::MASK] }, vec![2 & P::MASK]]));
            }
            check_eq!(w.a.seq.as_ref().unwrap().len(), n0 + if ok { 3 } else { 1 }, "length after extend");
        }
    }
    if !ok {
        // partly built objects are leaked, which is allowed
        allow_live_tokens();
        allow_leaks();
    }
    w.a.observe(0);
    flat.a.observe(0);
    w.apply(Push(0, 0));
    flat.apply(Push(0, 0));
    w.a.observe(0);
    flat.a.observe(0);
    w.a.lookup(false);
    flat.a.lookup(false);
    w.apply(TakeDrop(1));
    flat.apply(TakeMove(1));
    w.a.observe(0);
    flat.a.observe(0);
    flat.b.observe(0);
    ManuallyDrop::into_inner(w).finish();
    ManuallyDrop::into_inner(flat).finish();
    host(|| drop((src, val)));
    drop(ManuallyDrop::into_inner(env));
}
/// Sources of mismatched length with tokens: nothing destroyed twice.
fn wrongs<P: Pay, L: LenN>(v: &mut Vec<Section>) {
    v.push(Section { name: format!("sources of the wrong length for Array<{},{}>", P::NAME, L::N), dev: 0, body: Box::new(|| if choose(2) == 0 { wrong::<P, L, C>() } else { wrong::<P, L, U>() }) });
}

/// Fixed-size arrays: new_array whose source panics at any call.
fn fixed<P: Pay>() {
    use varlen::array_init::new_array;
    let env = Env::new();
    {
        let route = choose(ARR_ROUTES);
        let src: Vec<u64> = host(|| (0..4).map(|i| (i * 37 + 5) & P::MASK).collect());
        let i = arr_route::<P>(route, &src, &env);
        op();
        let before = live();
        let r = risky(Mode::Callback(ALL), || new_array::<P, 4>(i));
        match r {
            Some(a) => {
                let got: Vec<u64> = host(|| a.iter().map(|p| p.val()).collect());
                check_eq!(got, src, "content of the array");
                lib(|| drop(a));
            }
            None => {
                allow_live_tokens();
                allow_leaks();
                check!(live() >= env.tok.get(), "values of the source were destroyed ({} alive, {} held by the source, {} before)", live(), env.tok.get(), before);
            }
        }
    }
    drop(env);
}
fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    mc::zoo_tok!(small, &mut v, t);
    mc::zoo_tok_rest!(rest, &mut v, t);
    wrongs::<T8, u8>(&mut v);
    wrongs::<T16, u16>(&mut v);
    wrongs::<TZ, u8>(&mut v);
    wrongs::<u64, u32>(&mut v);
    wrongs::<u8, u64>(&mut v);
    wrongs::<T1, usize>(&mut v);
    v.push(Section { name: "fixed-size arrays of T8".into(), dev: t.pick(1, 2), body: Box::new(fixed::<T8>) });
    v.push(Section { name: "fixed-size arrays of T64".into(), dev: t.pick(1, 2), body: Box::new(fixed::<T64>) });
    v.push(Section { name: "fixed-size arrays of TZ".into(), dev: t.pick(1, 2), body: Box::new(fixed::<TZ>) });
    v
}
fn main() {
    set_mask(CONTENT | OFFSET | VALID | MEM | TOK);
    mc::driver::main(
        Meta {
            id: "C09",
            level: "fault_enumeration",
            rule: "every history up to the depth x every choice of up to the stated number of calls into user code (element construction, clone, default, fill function, iterator, destructor) that panic; after each operation sequences, boxes, valid offsets and the ledger are compared with the model; plus every declared length x source length x source kind x place",
            bounds: "37 element types holding values with destructors; alphabets of 30, 8, 4 and 3 operations to the depth and number of panics in each section's name; declared lengths 0..4, source lengths 0..5".into(),
            assumptions: &["values leaked by a panic half-way through building or destroying an object are allowed"],
        },
        secs,
    );
}
