use mc::alloc::{host, lib};
use mc::driver::*;
use mc::explore::*;
use mc::sim::*;
use mc::subj::*;
use mc::zoo::*;
use mc::{gcheck, gcheck_eq};
use varlen::{Initializer, Layout, Owned, VBox};

fn check_obj<T: Subj>(t: &T, lens: &[usize], at: &str) {
    op();
    let mut want = vec![];
    let size = host(|| T::r_layout(lens, 0, &mut want));
    let l = t.calculate_layout();
    gcheck_eq!(LAYOUT, l.size(), size, "size reported by the object {} with lengths {:?}", at, lens);
    let p = t as *const T as usize;
    gcheck!(LAYOUT, p % T::r_align() == 0, "object {} at {:#x} is not aligned to {}", at, p, T::r_align());
    let mut got = vec![];
    host(|| t.parts(&mut got));
    gcheck_eq!(LAYOUT, got.len(), want.len(), "number of parts");
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        gcheck_eq!(LAYOUT, (g.0.wrapping_sub(p), g.1), *w, "(offset, bytes) of part {} {} with lengths {:?}", i, at, lens);
    }
    // consequences of the reference layout itself, checked so that the reference cannot be wrong unnoticed
    let mut iv: Vec<(usize, usize)> = host(|| got.iter().filter(|g| g.1 > 0).map(|g| (g.0.wrapping_sub(p), g.1)).collect());
    iv.sort();
    for k in 0..iv.len() {
        gcheck!(LAYOUT, iv[k].0 + iv[k].1 <= size, "part at {:?} lies outside the object of {} bytes", iv[k], size);
        gcheck!(LAYOUT, k == 0 || iv[k - 1].0 + iv[k - 1].1 <= iv[k].0, "parts {:?} and {:?} overlap", iv[k - 1], iv[k]);
    }
    host(|| drop((want, got, iv)));
}
/// choices: shape, hand-over route, place; `deep`: the route of every nested part is a choice too
fn one<T: Subj>(shapes: &[Vec<usize>], deep: bool) {
    let env = Env::new();
    {
        let lens = &shapes[choose(shapes.len())];
        gcheck_eq!(LAYOUT, T::ALIGN, T::r_align(), "ALIGN of {}", T::name());
        let v = host(|| T::make(lens, 0x51ed));
        let lens = host(|| lens_of::<T>(&v));
        log(|| format!("{} with lengths {:?}", T::name(), lens));
        let mk = || if deep { any::<T>(&v, &mut |n| choose(n), &env) } else { any_route::<T>(choose(ROUTES), &v, &mut |_| 0, &env) };
        let i = mk();
        let size = r_size::<T>(&lens);
        let pl = i.calculate_layout_cautious().map(|l| l.size());
        gcheck_eq!(LAYOUT, pl, Some(size), "size predicted before construction with lengths {:?}", lens);
        match if deep { choose(2) } else { choose(3) } {
            0 => {
                let b = lib(|| VBox::new(i));
                check_obj::<T>(&b, &lens, "in a box");
                let p2 = Initializer::<T>::calculate_layout_cautious(&b).map(|l| l.size());
                gcheck_eq!(LAYOUT, p2, Some(size), "size predicted by a box as initializer");
                if let Some(c) = b.clo() {
                    let p3 = c.calculate_layout_cautious().map(|l| l.size());
                    gcheck_eq!(LAYOUT, p3, Some(size), "size predicted by a cloner");
                }
                lib(|| drop(b));
            }
            1 => {
                let mut s: Sim<T, C> = Sim::new();
                s.push(host(|| v.clone()), i);
                let j = T::direct(&v, &mut |_| 0, &env);
                s.push(host(|| v.clone()), j);
                for e in s.seq.as_ref().unwrap().iter() {
                    check_obj::<T>(e, &lens, "in a sequence");
                }
                {
                    let mut it = lib(|| s.s().take_elems());
                    if let Some(o) = lib(|| it.next()) {
                        let p4 = Initializer::<T>::calculate_layout_cautious(&o).map(|l| l.size());
                        gcheck_eq!(LAYOUT, p4, Some(size), "size predicted by a taken element as initializer");
                        lib(|| drop(o));
                    }
                    lib(|| drop(it));
                }
                s.clear_model();
                s.drop_seq();
            }
            _ => {
                let o = lib(|| Owned::new_in(i, &env.bump));
                check_obj::<T>(&o, &lens, "in an arena");
                let p5 = Initializer::<T>::calculate_layout_cautious(&o).map(|l| l.size());
                gcheck_eq!(LAYOUT, p5, Some(size), "size predicted by an arena object as initializer");
                lib(|| drop(o));
            }
        }
        let mut h = H::new(7);
        for &l in &lens {
            h.u(l as u64);
        }
        state(h.get(), 0);
        host(|| drop((v, lens)));
    }
    drop(env);
}
fn add<T: Subj>(v: &mut Vec<Section>, cap: usize) {
    let sh = shapes_upto::<T>(cap);
    v.push(Section { name: format!("layout {} ({} shapes)", T::name(), sh.len()), dev: 0, body: Box::new(move || one::<T>(&sh, false)) });
    if cap == 500 {
        return;
    }
    let mut sh = pick_shapes::<T>(3);
    if cap == 1000 {
        sh.drain(..sh.len() - 1);
    }
    v.push(Section { name: format!("nested routes {}", T::name()), dev: 0, body: Box::new(move || one::<T>(&sh, true)) });
}
macro_rules! steep {
    ($v:expr, $cap:expr, $($t:ty),*) => { $( add::<$t>($v, $cap); )* };
}
fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    let cap = t.pick(1000, 60000);
    mc::zoo_small!(add, &mut v, cap);
    mc::zoo_rest!(add, &mut v, cap);
    mc::zoo_layout!(add, &mut v, t.pick(500, 60000));
    steep!(&mut v, cap.min(40), FixedLen<A256>, FixedLen<A65536>, Array<A4096, u8>, Array<A256, u64>, Tup2<FixedLen<u8>, Array<A256, u8>>, Tup2<Str<u8>, FixedLen<A65536>>,
        Tup3<Array<A256, u8>, FixedLen<u8>, Array<A4096, u16>>, Tup2<FixedLen<A4096>, Str<u8>>, W<Tup2<Array<u8, u8>, FixedLen<A256>>>);
    // parts of no size, with an alignment of their own
    steep!(&mut v, cap.min(300), Array<Z8, u8>, Array<TZ16, u8>, Array<TZ, u16>, FixedLen<Z8>, FixedLen<TZ16>, Tup2<Str<u8>, Array<TZ16, u8>>, Tup2<Array<Z8, u8>, Array<u8, u8>>,
        Tup3<Array<u8, u8>, Array<Z8, u8>, FixedLen<u8>>, Tup3<FixedLen<u8>, FixedLen<Z8>, FixedLen<u8>>, Tup3<Array<u8, u8>, FixedLen<TZ16>, Str<u8>>, Tup2<Array<Z8, u64>, FixedLen<u8>>);
    let l = t.pick(&[4099, 70001, (1 << 20) + 5][..], &[4095, 4099, 65535, 65537, 70001, (1 << 20) - 1, (1 << 20) + 5, (1 << 22) + 3]);
    macro_rules! far {
        ($($t:ty),*) => { $({
            let sh = mc::scale::lens::<$t>(l);
            v.push(Section { name: format!("layout {} ({} shapes up to {})", <$t>::name(), sh.len(), l[l.len() - 1]), dev: 0, body: Box::new(move || one::<$t>(&sh, false)) });
        })* };
    }
    far!(Array<u8, u32>, Array<u16, u64>, Str<u32>, Tup2<Array<u8, u32>, FixedLen<u64>>, Tup3<FixedLen<u8>, Str, FixedLen<T8>>, W<Tup2<Array<[u8; 3], u32>, FixedLen<A64>>>);
    v
}
fn main() {
    set_mask(LAYOUT);
    mc::driver::main(
        Meta {
            id: "C06",
            level: "model_checking",
            rule: "every type x every vector of part lengths from the set x every hand-over route x every place (box, sequence, arena): predicted size, reported size, and address and extent of every part against an independent layout function",
            bounds: "40 general types, all 36 pairs of 6 part kinds, 27 triples, 20 larger or nested tuples, 9 with parts aligned to 2^8, 2^12 or 2^16, 11 with parts of no size aligned to 1, 8 or 16, 6 with a part of up to 1048581 cells (4194307 thorough); length sets from 0..70 plus lengths around 2^7..2^16 (single part) down to {0,1} (many parts)".into(),
            assumptions: &[],
        },
        secs,
    );
}
