use mc::driver::*;
use mc::explore::*;
use mc::sim::*;
use mc::subj::*;
use mc::world::{Op::*, *};
use mc::zoo::*;

/// n pushes of one shape, m of another, optionally everything taken out in between, then three more.
fn long<T: Subj, I: Ix>(v: &mut Vec<Section>, n: usize) {
    let shapes = pick_shapes::<T>(5);
    v.push(Section {
        name: format!("long {} up to {}+{}", seq_name::<T, I>(), n, n),
        dev: 0,
        body: Box::new(move || {
            let env = Env::new();
            {
                let mut w: World<T, I> = World::new(&env, &shapes);
                let (a, b) = (choose(5), choose(5));
                let (n, m) = (choose(n + 1), choose(n + 1));
                let mid = choose(2);
                for i in 0..n {
                    w.apply(Push(a, i % ROUTES));
                }
                w.observe(0);
                if mid == 1 {
                    w.apply(TakeMove(n / 2));
                    w.observe(0);
                }
                for i in 0..m {
                    w.apply(Push(b, i % ROUTES));
                    if i % 8 == 0 {
                        w.observe(0);
                    }
                }
                w.observe(0);
                for i in 0..3 {
                    w.apply(Push(i, 0));
                    w.observe(0);
                }
                w.finish();
            }
            drop(env);
        }),
    });
}

fn macros<T: Subj>(v: &mut Vec<Section>) {
    let shapes = pick_shapes::<T>(4);
    v.push(Section {
        name: format!("seq! {}", T::name()),
        dev: 0,
        body: Box::new(move || {
            let env = Env::new();
            {
                let n = choose(4);
                let vs: Vec<Val> = mc::alloc::host(|| (0..n).map(|i| T::make(&shapes[choose(shapes.len())], 40 + i as u64)).collect());
                let mut is = mc::alloc::host(|| vs.iter().map(|v| any_route::<T>(choose(ROUTES), v, &mut zero, &env)).collect::<std::collections::VecDeque<_>>());
                let mut g = || is.pop_front().unwrap();
                op();
                let s: Seq<T> = mc::alloc::lib(|| match n {
                    0 => seq![],
                    1 => seq![g()],
                    2 => seq![g(), g(),],
                    _ => seq![g(), g(), g()],
                });
                let c: varlen::Seq<T> = Seq::new_minimal();
                mc::check_eq!(c.len(), 0, "new_minimal().len()");
                let c2: IndexableSeq<T> = Seq::new_indexable();
                mc::check_eq!(c2.iter().count(), 0, "new_indexable() is empty");
                mc::check_eq!(s.len(), n, "len() of seq!");
                let got: Vec<Val> = mc::alloc::host(|| s.iter().map(|e| read(e)).collect());
                mc::check_eq!(got, vs, "elements of seq!");
                mc::alloc::lib(|| drop(s));
                mc::alloc::host(|| drop((got, vs, is)));
            }
            drop(env);
        }),
    });
}

/// Every number of elements x every size hint x what is there already, extend and collect.
fn hints<T: Subj, I: Ix>(v: &mut Vec<Section>, most: usize) {
    let shapes = pick_shapes::<T>(3);
    v.push(Section {
        name: format!("size hints {} up to {}", seq_name::<T, I>(), most),
        dev: 0,
        body: Box::new(move || {
            let env = Env::new();
            {
                let mut w: World<T, I> = World::new(&env, &shapes);
                for _ in 0..choose(3) {
                    w.apply(Push(1, 0));
                }
                let (n, hint) = (choose(most + 1), choose(HINTS));
                w.apply(Extend(n, hint));
                w.observe(0);
                if choose(2) == 1 {
                    w.apply(CollectHint(hint));
                } else {
                    w.apply(Extend(choose(3), (hint + 1) % HINTS));
                }
                w.observe(0);
                w.apply(Push(0, 0));
                w.observe(0);
                w.finish();
            }
            drop(env);
        }),
    });
}

fn small<T: Subj>(v: &mut Vec<Section>, t: Tier) {
    deep::<T, U>(v, t);
    deep::<T, C>(v, t);
    long::<T, U>(v, t.pick(12, 40));
    long::<T, C>(v, t.pick(20, 40));
    macros::<T>(v);
    hints::<T, U>(v, t.pick(5, 9));
    hints::<T, C>(v, t.pick(5, 9));
}
fn rest<T: Subj>(v: &mut Vec<Section>, t: Tier) {
    shallow::<T, U>(v, t);
    shallow::<T, C>(v, t);
    hints::<T, C>(v, t.pick(3, 9));
}
fn minimal() -> Vec<Op> {
    vec![Push(0, 0), Push(1, 0), Push(2, 0), TakeDrop(0), WriteLast]
}
fn rich() -> Vec<Op> {
    vec![Push(0, 0), Push(1, 1), Push(2, 2), Push(3, 3), WriteFirst, SetAll, TakeDrop(0), TakeMove(1), TakeForget(1), Extend(3, 1), Collect, ExtendFromA, Swap, DropA]
}
fn deep<T: Subj, I: Ix>(v: &mut Vec<Section>, t: Tier) {
    v.push(hist_section::<T, I>("rich", rich(), 3, 4));
    v.push(hist_section::<T, I>("minimal", minimal(), t.pick(7, 9), 3));
    v.push(hist_section::<T, I>("rich", rich(), t.pick(4, 5), 4));
}
fn shallow<T: Subj, I: Ix>(v: &mut Vec<Section>, t: Tier) {
    v.push(hist_section::<T, I>("rich", rich(), t.pick(3, 5), 4));
    v.push(hist_section::<T, I>("minimal", minimal(), t.pick(6, 8), 3));
}

fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    mc::zoo_small!(small, &mut v, t);
    mc::zoo_rest!(rest, &mut v, t);
    mc::scale::large(&mut v, t);
    mc::scale::volumes(&mut v, t);
    v
}

fn main() {
    set_mask(CONTENT | UTF8);
    mc::driver::main(
        Meta {
            id: "C01",
            level: "model_checking",
            rule: "every operation history over the alphabet up to the depth, in lockstep with a list model; a state is (content, offsets, capacity)",
            bounds: "40 element types x 2 indexing modes; minimal alphabet (push x3 sizes, take, write) and rich alphabet (14 operations on two sequences) to the depth in each section's name; two-phase histories n x one size then m x another; extend and collect from iterators with 8 kinds of size hint; 10 types with parts of up to 65537 cells (3 of them up to 1048581 or 4194313; thorough 14 types) and sequences of up to 65537 elements (131073 thorough), without a model of every cell of up to 2621440 alignment units (41943040 thorough)".into(),
            assumptions: &[],
        },
        secs,
    );
}
