#![feature(alloc_error_hook)]
use mc::alloc::lib;
use mc::driver::*;
use mc::explore::*;
use mc::fworld::{F::*, *};
use mc::subj::*;
use mc::zoo::*;
use varlen::{Owned, Seq, VBox};

fn all() -> Vec<F> {
    vec![
        Push(0, 0), Push(1, 1), Push(2, 2), Push(2, 3), Extend(3, 1), Collect, ExtendFromA, BoxNew(2, 0), BoxNew(1, 1), BoxClone, BoxToA, BoxToArena, OwnNew(2, 0), OwnToA, OwnToBox,
        TakeMove(1), TakeToBox, TakeDrop(1), CloneToB, CloneToBox, DropA,
    ]
}
fn pushes() -> Vec<F> {
    vec![Push(0, 0), Push(1, 0), Push(2, 0), TakeMove(1), Extend(3, 0)]
}
fn small<T: Subj>(v: &mut Vec<Section>, t: Tier) {
    v.push(fsection::<T, C>(Mode::Alloc, 1, "all", all(), t.pick(3, 4), 3));
    v.push(fsection::<T, U>(Mode::Alloc, 1, "all", all(), t.pick(2, 4), 3));
    v.push(fsection::<T, C>(Mode::Alloc, 2, "pushes", pushes(), t.pick(5, 7), 3));
    v.push(fsection::<T, U>(Mode::Alloc, 2, "pushes", pushes(), t.pick(5, 7), 3));
    v.push(fsection::<T, C>(Mode::Alloc, 2, "all", all(), t.pick(2, 3), 3));
    v.push(fsection::<T, C>(Mode::Alloc, 1, "lookups", vec![Push(1, 0), Push(2, 0), TakeMove(1), Look], t.pick(4, 6), 3));
}
fn rest<T: Subj>(v: &mut Vec<Section>, t: Tier) {
    v.push(fsection::<T, C>(Mode::Alloc, 1, "all", all(), t.pick(2, 3), 3));
    v.push(fsection::<T, C>(Mode::Alloc, 2, "pushes", pushes(), t.pick(4, 6), 3));
    v.push(fsection::<T, U>(Mode::Alloc, 1, "pushes", pushes(), t.pick(4, 6), 3));
}
/// What the process really does, with the standard hook, in a process of its own.
const REAL: usize = 12;
fn real_case(k: usize) {
    let big = "x".repeat(700);
    let src: VBox<Str> = VBox::new(Str::copy(&big));
    let bump = bumpalo::Bump::new();
    let mut s: Seq<Str, C> = Seq::new();
    s.push(Str::copy("a"));
    std::panic::set_hook(Box::new(|_| {}));
    mc::alloc::ST.with(|st| st.fault.set(Some(|_| true)));
    lib(|| match k {
        0 => drop(VBox::<Str>::new(Str::copy(&big))),
        1 => drop(src.clone()),
        2 => drop(VBox::<FixedLen<u64>>::new(FixedLen(3))),
        3 => drop(VBox::<Tup2<Str, FixedLen<u8>>>::new(tup2::Init(src, FixedLen(3)))),
        4 => drop(VBox::<Array<u64>>::new(Array::copy(&[1, 2, 3]))),
        5 => drop(VBox::<few::SAb>::new(few::s_ab::Init { long_v_name_a: Str::<u8>::try_copy("abc").unwrap() })),
        6 => s.push(Str::copy(&big)),
        7 => {
            let mut n: Seq<Str> = Seq::new();
            n.push(Str::copy(""))
        }
        8 => drop(Owned::<Str>::new_in(Str::copy(&big), &bump)),
        9 => s.extend([Str::copy("b"), Str::copy(&big)]),
        10 => drop([Str::copy("b")].into_iter().collect::<Seq<Str, C>>()),
        _ => s.push(src),
    });
}
fn real(k: usize) {
    use std::os::unix::process::ExitStatusExt;
    op();
    let st = std::process::Command::new(std::env::current_exe().unwrap()).env("MC_REAL", k.to_string()).stderr(std::process::Stdio::null()).stdout(std::process::Stdio::null()).status().unwrap();
    // 101: a panic nobody caught; SIGABRT: the allocation-error abort
    let ok = st.code() == Some(101) || st.signal() == Some(6);
    mc::check!(ok, "with every allocation failing, case {} ends with {:?} instead of a panic or abort", k, st);
    let mut h = H::new(k as u64);
    h.u(99);
    state(h.get(), 0);
}
fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    v.push(Section { name: "real process endings".into(), dev: 0, body: Box::new(|| real(choose(REAL))) });
    mc::zoo_small!(small, &mut v, t);
    mc::zoo_rest!(rest, &mut v, t);
    v
}
fn main() {
    if let Ok(k) = std::env::var("MC_REAL") {
        real_case(k.parse().unwrap());
        std::process::exit(0);
    }
    std::alloc::set_alloc_error_hook(|_| {
        if in_exec() && !std::thread::panicking() {
            process_ends()
        }
    });
    set_mask(CONTENT | OFFSET | VALID | MEM | TOK | TOKLEAK);
    mc::driver::main(
        Meta {
            id: "C08",
            level: "fault_enumeration",
            rule: "every history up to the depth x every choice of up to the stated number of allocation requests of the library that fail (refused by the global allocator); after each operation the sequences, boxes and the ledger are compared with the model; an allocation-error abort ends the execution after the memory check",
            bounds: "40 element types x 2 indexing modes; alphabets of 21, 5 and 4 operations to the depth and number of faults in each section's name; 12 operations in a real process with every allocation failing".into(),
            assumptions: &["the allocation-error abort is represented by the standard allocation-error hook, which ends the execution there"],
        },
        secs,
    );
}
