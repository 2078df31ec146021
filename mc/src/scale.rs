//! Objects and sequences far beyond the sizes of the other histories: lengths, offsets, capacities and element
//! counts on both sides of 2^8, 2^12 and 2^16.
use crate::driver::*;
use crate::explore::*;
use crate::sim::*;
use crate::subj::*;
use crate::world::{Op::*, *};
use crate::zoo::*;

pub fn lens<T: Subj>(ladder: &[usize]) -> Vec<Vec<usize>> {
    let mut s = vec![];
    for &l in ladder {
        // one long part, the others short; then all long
        for other in [1, l] {
            let all = T::shapes(&[other, l]);
            let want = all.iter().filter(|x| x.contains(&l)).last().or(all.last());
            if let Some(x) = want {
                if !s.contains(x) {
                    s.push(x.clone());
                }
            }
        }
    }
    s
}

/// A few large objects, in every order, handed over and taken out in every way.
fn big<T: Subj, I: Ix>(v: &mut Vec<Section>, ladder: &[usize]) {
    let sh = lens::<T>(ladder);
    v.push(Section {
        name: format!("large objects {} ({} shapes up to {})", seq_name::<T, I>(), sh.len(), ladder[ladder.len() - 1]),
        dev: 0,
        body: Box::new(move || {
            let env = Env::new();
            {
                let mut w: World<T, I> = World::new(&env, &sh);
                let n = sh.len();
                let (x, y) = (choose(n), choose(n));
                match choose(5) {
                    0 => {
                        w.apply(Push(x, 0));
                        w.apply(Push(y, 1));
                        w.observe(0);
                        w.apply(TakeMove(1));
                        w.observe(0);
                        w.apply(Push(y, 2));
                        w.apply(Push(x, 3));
                        w.observe(0);
                        w.apply(WriteLast);
                        w.apply(ExtendFromA);
                        w.observe(0);
                    }
                    1 => {
                        w.apply(Push(x, 2));
                        w.apply(Push(0, 0));
                        w.apply(Push(y, 0));
                        w.apply(Push(0, 0));
                        w.apply(SetAll);
                        w.observe(0);
                        if w.enabled(CloneToB) {
                            w.apply(CloneToB);
                        }
                        w.apply(Collect);
                        w.observe(0);
                        w.apply(Push(x, 0));
                        w.observe(0);
                    }
                    2 => {
                        w.apply(BoxNew(x, 0));
                        w.apply(OwnNew(y, 0));
                        w.observe(0);
                        w.apply(BoxSet);
                        w.apply(OwnSet);
                        w.apply(BoxClone);
                        w.observe(0);
                        w.apply(OwnToA);
                        w.apply(BoxToArena);
                        w.observe(0);
                        w.apply(OwnToBox);
                        w.apply(BoxToA);
                        w.observe(0);
                        w.apply(TakeToBox);
                        w.observe(0);
                    }
                    3 => {
                        w.apply(Push(x, 0));
                        w.apply(Push(y, 0));
                        w.apply(TakeDrop(choose(2)));
                        w.observe(0);
                        w.apply(Push(y, 0));
                        w.apply(Push(x, 1));
                        w.observe(0);
                        w.apply(TakeForget(1));
                        w.apply(Push(x, 0));
                        w.observe(0);
                    }
                    _ => {
                        w.apply(Extend(n, 1));
                        w.apply(Push(x, 0));
                        w.apply(BadPush(y));
                        w.observe(0);
                        w.apply(Push(y, 0));
                        w.a.lookup(false);
                        w.apply(DropA);
                        w.apply(Push(y, 0));
                        w.observe(0);
                    }
                }
                w.finish();
            }
            drop(env);
        }),
    });
}

/// Many small elements.
fn many<T: Subj, I: Ix>(v: &mut Vec<Section>, counts: &[usize]) {
    let shapes = pick_shapes::<T>(7).into_iter().take(3).collect::<Vec<_>>();
    let counts = counts.to_vec();
    v.push(Section {
        name: format!("many elements {} up to {}", seq_name::<T, I>(), counts[counts.len() - 1]),
        dev: 0,
        body: Box::new(move || {
            let env = Env::new();
            {
                let mut w: World<T, I> = World::new(&env, &shapes);
                let n = counts[choose(counts.len())];
                let (x, y) = (choose(shapes.len()), choose(shapes.len()));
                let end = choose(5);
                for i in 0..n {
                    w.apply(Push(if i % 3 == 1 { y } else { x }, 0));
                }
                w.observe(0);
                w.apply(Push(y, 1));
                w.apply(WriteLast);
                w.observe(0);
                match end {
                    0 => w.apply(TakeMove(n / 2)),
                    1 => w.apply(TakeForget(n)),
                    2 => w.apply(ExtendFromA),
                    3 => w.apply(Collect),
                    _ => w.apply(SetAll),
                }
                w.observe(0);
                w.apply(Push(x, 0));
                w.apply(PushB(y));
                w.observe(0);
                w.finish();
            }
            drop(env);
        }),
    });
}

fn both<T: Subj>(v: &mut Vec<Section>, ladder: &[usize]) {
    big::<T, U>(v, ladder);
    big::<T, C>(v, ladder);
}
pub fn large(v: &mut Vec<Section>, t: Tier) {
    let q = t.pick(true, false);
    let b8: &[usize] = if q { &[0, 255, 257, 4097, 65537] } else { &[0, 1, 255, 256, 4095, 4097, 65535, 65536, 65537, 70001] };
    let b16: &[usize] = if q { &[0, 256, 4097, 65535] } else { &[0, 31, 255, 257, 4096, 8191, 8193, 65535] };
    let tk: &[usize] = if q { &[0, 257, 4097] } else { &[0, 255, 256, 4095, 4097, 65535] };
    both::<Array<u8, u32>>(v, b8);
    both::<Array<u64, u16>>(v, b16);
    both::<Array<T8, u16>>(v, tk);
    both::<Str<u32>>(v, b8);
    both::<Tup2<FixedLen<u16>, Array<u8, usize>>>(v, b8);
    both::<Tup3<FixedLen<u8>, Array<u64, u16>, Str<u8>>>(v, b16);
    both::<W<Array<T12, u16>>>(v, tk);
    if !q {
        both::<Tup2<Array<u16, u16>, Array<T8, u32>>>(v, tk);
        both::<Array<A64, u16>>(v, &[0, 255, 1025]);
        both::<Tup4<Str<u16>, Array<T8, u16>, FixedLen<A64>, Array<u8, u32>>>(v, tk);
    }
    // past 2^20 bytes and allocation units
    let huge: &[usize] = if q { &[1, (1 << 20) + 5] } else { &[1, (1 << 20) - 1, (1 << 20) + 5, (1 << 21) + 1] };
    big::<Array<u8, u32>, U>(v, huge);
    big::<Tup2<Array<u8, u32>, FixedLen<u64>>, C>(v, huge);
    // 2^20 units
    big::<Array<u8, u32>, C>(v, &[1, (1 << 22) + 9]);
    if !q {
        big::<Str<u32>, U>(v, huge);
        big::<Tup3<FixedLen<u16>, Array<u32, u32>, FixedLen<T8>>, C>(v, huge);
    }
    // steep alignments
    big::<Array<A256, u8>, U>(v, &[0, 1, 3]);
    big::<Tup3<Array<T8, u16>, Str<u8>, FixedLen<A4096>>, C>(v, &[0, 1, 3]);
    let c1: &[usize] = if q { &[257, 65537] } else { &[255, 256, 257, 65535, 65536, 65537, 131073] };
    let c: &[usize] = if q { &[256, 1025, 4097] } else { &[255, 256, 257, 1023, 1025, 4095, 4097, 65535, 65537] };
    let ct: &[usize] = if q { &[256, 1025] } else { &[255, 256, 257, 1023, 1025, 4097] };
    many::<FixedLen<u8>, U>(v, c1);
    many::<FixedLen<u8>, C>(v, c1);
    many::<Array<u8, u8>, U>(v, c);
    many::<Array<u8, u8>, C>(v, c);
    many::<FixedLen<T8>, C>(v, ct);
    many::<Array<T8, u16>, U>(v, ct);
    many::<Array<T8, u16>, C>(v, ct);
    many::<Tup2<FixedLen<u32>, Str<u8>>, C>(v, ct);
}

/// Far more than the histories hold, without a model of every cell: element `i` holds `len(i)` cells, each `i` as
/// far as it fits.
fn volume<P: Pay + Copy + Default, L: LenN, I: Ix>(v: &mut Vec<Section>, upto: usize, len: fn(usize) -> usize, what: &'static str) {
    type S<P, L, I> = varlen::Seq<Array<P, L>, I>;
    fn cell<P: Pay>(i: usize) -> P {
        P::mk((i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 3 & P::MASK)
    }
    v.push(Section {
        name: format!("volume {} of {}, up to {} units", seq_name::<Array<P, L>, I>(), what, upto),
        dev: 0,
        body: Box::new(move || {
            use crate::alloc::{host, lib};
            use varlen::array::SizedInit;
            use varlen::array_init::FillSequentially;
            op();
            let (second, taken) = (choose(2), choose(3));
            log(|| format!("{} units, refill {}, taken {}", upto, second, taken));
            let mut q: S<P, L, I> = lib(varlen::Seq::new);
            let mut starts: Vec<usize> = host(|| Vec::with_capacity(1 << 20));
            for round in 0..2 {
                let base = round * 7 * second;
                starts.clear();
                while q.offset() < upto {
                    let i = starts.len() + base;
                    host(|| starts.push(q.offset()));
                    lib(|| q.push(SizedInit(L::from_usize(len(i)).unwrap(), FillSequentially(|_| cell::<P>(i)))));
                }
                let n = starts.len();
                crate::gcheck_eq!(ITER, q.len(), n, "elements");
                let mut i = 0;
                for e in q.iter() {
                    let (k, c) = (len(i + base), cell::<P>(i + base).val());
                    crate::gcheck!(CONTENT, e.len() == k && (k == 0 || e[0].val() == c && e[k / 2].val() == c && e[k - 1].val() == c), "element {} of {} is wrong", i, n);
                    crate::gcheck_eq!(OFFSET, q.offset_of(e), starts[i], "offset of element {}", i);
                    let f = I::get(&q, starts[i]);
                    crate::gcheck!(OFFSET, std::ptr::eq(e, f), "element {} is not at its offset {}", i, starts[i]);
                    i += 1;
                }
                crate::gcheck_eq!(ITER, i, n, "elements by iteration");
                stop_if_violated();
                if on(VALID) && I::CHECKED {
                    let mut at = 0;
                    for o in 0..q.capacity_in_offsets() + 130 {
                        let want = at < n && starts[at] == o;
                        crate::gcheck!(VALID, I::valid(&q, o) == Some(want), "offset {} is {}", o, if want { "the start of an element but not valid" } else { "valid but not the start of an element" });
                        at += want as usize;
                    }
                }
                stop_if_violated();
                let mut i = 0;
                for mut e in q.iter_mut() {
                    let k = len(i + base);
                    if k > 0 {
                        e.as_mut().mut_slice()[k - 1] = cell::<P>(i + 1);
                    }
                    i += 1;
                }
                let mut i = 0;
                let mut t = lib(|| q.take_elems());
                let stop = [0, n / 2, n][taken];
                while i < stop {
                    let Some(o) = lib(|| t.next()) else { break };
                    let k = len(i + base);
                    crate::gcheck!(CONTENT, o.len() == k && (k == 0 || o[k - 1].val() == cell::<P>(i + 1).val()), "element {} taken out is wrong", i);
                    lib(|| drop(o));
                    i += 1;
                }
                crate::gcheck_eq!(ITER, i, stop, "elements taken out");
                lib(|| drop(t));
                crate::gcheck_eq!(OFFSET, q.offset(), 0, "offset after taking everything out");
                state(n as u64, round);
            }
            lib(|| drop(q));
            host(|| drop(starts));
        }),
    });
}
/// Sequences past 2^20 (thorough: 2^24) alignment units.
pub fn volumes(v: &mut Vec<Section>, t: Tier) {
    let k = t.pick(0, 4);
    volume::<u8, u8, U>(v, 5 << 19 << k, |i| i * 89 % 256, "0..255 cells");
    volume::<u8, u8, C>(v, 5 << 19 << k, |i| i * 89 % 256, "0..255 cells");
    volume::<u16, u8, C>(v, 3 << 19 << k, |i| i * 5 % 13, "0..12 cells");
    volume::<u64, u16, U>(v, 3 << 19 << k, |i| i * 4001 % 30000, "0..29999 cells");
    volume::<u64, u16, C>(v, 3 << 19 << k, |i| i * 4001 % 30000, "0..29999 cells");
    volume::<u8, u32, C>(v, 3 << 19 << k, |i| if i % 3 == 1 { 3 << 20 } else { i % 5 }, "up to 3 MB");
}
