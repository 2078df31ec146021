use mc::alloc::{host, lib, requests};
use mc::driver::*;
use mc::explore::*;
use mc::sim::*;
use mc::subj::*;
use mc::zoo::*;
use mc::{check, check_eq};
use std::collections::BTreeSet;
use std::mem::MaybeUninit;
use varlen::array::SizedInit;
use varlen::array_init::ArrayInitializer;
use varlen::{define_varlen, Initializer, Layout, Owned, Seq, VBox, VarLen};

const MAX: u128 = usize::MAX as u128;
const IMAX: u128 = isize::MAX as u128;

/// must never be run
struct Never;
unsafe impl<P> ArrayInitializer<P> for Never {
    fn initialize(self, dst: &mut [MaybeUninit<P>]) {
        mc::fail!("the initializer of an impossible object was run ({} elements)", dst.len());
    }
}

/// A type whose objects can be asked for with any lengths.
trait Big: VarLen + 'static {
    type I: Initializer<Self>;
    /// element sizes of the variable parts
    fn strides(out: &mut Vec<(usize, usize)>); // (stride, maximum length)
    fn nm() -> String;
    /// exact size, counting without bound
    fn size(lens: &mut std::slice::Iter<usize>, over: &mut bool) -> u128;
    fn init(lens: &mut std::slice::Iter<usize>) -> Self::I;
    fn al() -> usize;
}
fn chk(x: u128, over: &mut bool) -> u128 {
    if x > MAX {
        *over = true;
    }
    x
}
fn upb(x: u128, a: usize, over: &mut bool) -> u128 {
    chk((x + a as u128 - 1) / a as u128 * a as u128, over)
}
impl<P: Pay> Big for FixedLen<P> {
    type I = FixedLen<P>;
    fn strides(_: &mut Vec<(usize, usize)>) {}
    fn nm() -> String {
        format!("Fixed<{}>", P::NAME)
    }
    fn size(_: &mut std::slice::Iter<usize>, _: &mut bool) -> u128 {
        std::mem::size_of::<P>() as u128
    }
    fn init(_: &mut std::slice::Iter<usize>) -> Self::I {
        FixedLen(P::mk(3))
    }
    fn al() -> usize {
        std::mem::align_of::<P>()
    }
}
fn arr_size<P>(base: u128, n: usize, over: &mut bool) -> u128 {
    let off = upb(base, std::mem::align_of::<P>(), over);
    let b = chk(n as u128 * std::mem::size_of::<P>() as u128, over);
    chk(off + b, over)
}
impl<P: Pay, L: LenN> Big for Array<P, L> {
    type I = SizedInit<Never, L>;
    fn strides(out: &mut Vec<(usize, usize)>) {
        out.push((std::mem::size_of::<P>(), L::MAX));
    }
    fn nm() -> String {
        format!("Array<{},{}>", P::NAME, L::N)
    }
    fn size(lens: &mut std::slice::Iter<usize>, over: &mut bool) -> u128 {
        arr_size::<P>(std::mem::size_of::<L>() as u128, *lens.next().unwrap(), over)
    }
    fn init(lens: &mut std::slice::Iter<usize>) -> Self::I {
        let n = *lens.next().unwrap();
        match L::from_usize(n) {
            Some(l) => SizedInit(l, Never),
            None => mc::fail!("length {} refused by {}", n, L::N),
        }
    }
    fn al() -> usize {
        std::mem::align_of::<P>().max(std::mem::align_of::<L>())
    }
}
macro_rules! big_tuple {
    ($Tup:ident, $m:ident, $($A:ident),*) => {
        impl<$($A: Big),*> Big for $Tup<$($A),*> {
            type I = $m::Init<$($A::I),*>;
            fn strides(out: &mut Vec<(usize, usize)>) { $( $A::strides(out); )* }
            fn nm() -> String { format!("({})", [$($A::nm()),*].join(",")) }
            fn size(lens: &mut std::slice::Iter<usize>, over: &mut bool) -> u128 {
                let mut s = 0u128;
                $( s = upb(s, $A::al(), over); s += $A::size(lens, over); chk(s, over); )*
                s
            }
            fn init(lens: &mut std::slice::Iter<usize>) -> Self::I { $m::Init($($A::init(lens)),*) }
            fn al() -> usize { [$($A::al()),*].into_iter().max().unwrap() }
        }
    };
}
big_tuple!(Tup2, tup2, A, B);
big_tuple!(Tup3, tup3, A, B, D);
big_tuple!(Tup4, tup4, A, B, D, E);
big_tuple!(Tup5, tup5, A, B, D, E, F);
impl<T: Big> Big for W<T> {
    type I = WInit<T::I>;
    fn strides(out: &mut Vec<(usize, usize)>) {
        T::strides(out)
    }
    fn nm() -> String {
        format!("W({})", T::nm())
    }
    fn size(lens: &mut std::slice::Iter<usize>, over: &mut bool) -> u128 {
        T::size(lens, over)
    }
    fn init(lens: &mut std::slice::Iter<usize>) -> Self::I {
        WInit(T::init(lens))
    }
    fn al() -> usize {
        T::al()
    }
}
#[define_varlen]
#[repr(C)]
struct BigA {
    #[controls_layout]
    n: usize,
    k: u8,
    #[varlen_array]
    a: [u16; *n],
    #[varlen_array]
    b: [u8; *n],
    #[varlen]
    t: Array<u32, u64>,
}
#[define_varlen]
#[repr(C)]
struct BigB {
    x: u8,
    #[varlen]
    pre: Array<u64>,
    #[controls_layout]
    n: u64,
    #[controls_layout]
    m: usize,
    #[varlen_array]
    a: [u64; (*n) as usize],
    #[varlen_array]
    b: [A16; (*m) / 2],
    #[varlen]
    post: Tup2<Array<u8, u8>, Array<u16, usize>>,
}
/// only an array: nothing after it adds to the size
#[define_varlen]
#[repr(C)]
struct BigC {
    #[controls_layout]
    n: u32,
    #[varlen_array]
    a: [[u64; 256]; (*n as usize) << 30],
}
impl Big for BigA {
    type I = big_a::Init<Never, Never, SizedInit<Never, u64>>;
    fn strides(out: &mut Vec<(usize, usize)>) {
        out.push((3, usize::MAX));
        out.push((4, usize::MAX));
    }
    fn nm() -> String {
        "BigA".into()
    }
    fn size(lens: &mut std::slice::Iter<usize>, over: &mut bool) -> u128 {
        #[repr(C)]
        struct Hd(usize, u8);
        let n = *lens.next().unwrap();
        let s = arr_size::<u16>(std::mem::size_of::<Hd>() as u128, n, over);
        let s = arr_size::<u8>(s, n, over);
        let s = upb(s, 8, over);
        let c = Array::<u32, u64>::size(lens, over);
        chk(s + c, over)
    }
    fn init(lens: &mut std::slice::Iter<usize>) -> Self::I {
        big_a::Init { n: *lens.next().unwrap(), k: 3, a: Never, b: Never, t: Array::<u32, u64>::init(lens) }
    }
    fn al() -> usize {
        8
    }
}
impl Big for BigB {
    type I = big_b::Init<SizedInit<Never>, Never, Never, tup2::Init<SizedInit<Never, u8>, SizedInit<Never, usize>>>;
    fn strides(out: &mut Vec<(usize, usize)>) {
        out.extend([(8, usize::MAX), (8, usize::MAX), (8, usize::MAX), (1, 255), (2, usize::MAX)]);
    }
    fn nm() -> String {
        "BigB".into()
    }
    fn size(lens: &mut std::slice::Iter<usize>, over: &mut bool) -> u128 {
        #[repr(C)]
        struct Hd(u8, u64, usize);
        let p = *lens.next().unwrap();
        let n = *lens.next().unwrap();
        let m = *lens.next().unwrap();
        let s = upb(std::mem::size_of::<Hd>() as u128, 8, over);
        let c = Array::<u64>::size(&mut [p].iter(), over);
        let s = chk(s + c, over);
        let s = arr_size::<u64>(s, n, over);
        let s = arr_size::<A16>(s, m / 2, over);
        let s = upb(s, 8, over);
        let c = <Tup2<Array<u8, u8>, Array<u16, usize>>>::size(lens, over);
        chk(s + c, over)
    }
    fn init(lens: &mut std::slice::Iter<usize>) -> Self::I {
        let p = *lens.next().unwrap();
        let n = *lens.next().unwrap();
        let m = *lens.next().unwrap();
        big_b::Init { x: 1, pre: SizedInit(p, Never), n: n as u64, m, a: Never, b: Never, post: <Tup2<Array<u8, u8>, Array<u16, usize>>>::init(lens) }
    }
    fn al() -> usize {
        16
    }
}
impl Big for BigC {
    type I = big_c::Init<Never>;
    fn strides(out: &mut Vec<(usize, usize)>) {
        out.push((8 * 256 << 30, u32::MAX as usize));
    }
    fn nm() -> String {
        "BigC".into()
    }
    fn size(lens: &mut std::slice::Iter<usize>, over: &mut bool) -> u128 {
        arr_size::<[u64; 256]>(4, lens.next().unwrap() << 30, over)
    }
    fn init(lens: &mut std::slice::Iter<usize>) -> Self::I {
        big_c::Init { n: *lens.next().unwrap() as u32, a: Never }
    }
    fn al() -> usize {
        8
    }
}

/// lengths that put `stride * n` (plus small headers) around a limit
fn around(stride: usize, max: usize, width: usize) -> Vec<usize> {
    let mut o = BTreeSet::new();
    for n in [0usize, 1, 2, 3, 5, 8, 16, 31] {
        o.insert(n as u128);
    }
    let st = stride.max(1) as u128;
    for lim in [1u128 << 64, 1 << 63] {
        let c = lim / st;
        for d in 0..width as u128 {
            o.insert(c.saturating_sub(d));
            o.insert(c + d);
        }
        // half and third: for parts that come several times
        o.insert(c / 2);
        o.insert(c / 3 + 1);
        o.insert(c / 2 - 1);
        // multiples that wrap to something small
        o.insert(lim * 2 / st);
        o.insert(lim * 2 / st + 1);
    }
    for p in [8u32, 16, 31, 32, 33, 48, 56, 61, 62] {
        o.insert((1u128 << p) - 1);
        o.insert(1u128 << p);
        o.insert((1u128 << p) + 1);
    }
    o.insert(MAX);
    o.into_iter().filter(|&n| n <= max as u128).map(|n| n as usize).collect()
}
fn small(stride: usize, max: usize, width: usize) -> Vec<usize> {
    let mut v: Vec<usize> = around(stride, max, width);
    v.sort();
    v
}

fn grid<T: Big>(w: usize) -> Vec<Vec<usize>> {
    host(|| {
        let mut st = vec![];
        T::strides(&mut st);
        let lists: Vec<Vec<usize>> = st.iter().map(|&(s, m)| if st.len() == 1 { around(s, m, w) } else if st.len() == 2 { around(s, m, w / 4) } else { small(s, m, 2) }).collect();
        // with many parts: at most two of them large, the others from {0, 1, 3, large}
        let mut out: Vec<Vec<usize>> = vec![];
        if lists.len() <= 2 {
            out.push(vec![]);
            for l in &lists {
                out = out.into_iter().flat_map(|p| l.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q })).collect();
            }
        } else {
            for i in 0..lists.len() {
                for j in i + 1..lists.len() {
                    for &x in &lists[i] {
                        for &y in &lists[j] {
                            for z in [0, 1, 3] {
                                let mut q = vec![z; lists.len()];
                                q[i] = x;
                                q[j] = y;
                                out.push(q);
                            }
                        }
                    }
                }
            }
        }
        out.sort();
        out.dedup();
        out
    })
}

fn predict<T: Big>(g: &[Vec<usize>]) {
    for lens in g {
        op();
        let mut over = false;
        let size = T::size(&mut lens.iter(), &mut over);
        let want = if over { None } else { Some(size as usize) };
        let i = T::init(&mut lens.iter());
        let got = i.calculate_layout_cautious().map(|l| l.size());
        check_eq!(got, want, "predicted size of {} with lengths {:?}", T::nm(), lens);
        let mut h = H::new(1);
        h.u(size as u64);
        h.u(over as u64);
        state(h.get(), 0);
        host(|| drop(i));
    }
}
fn create<T: Big, P: Subj, X: Ix>(g: &[Vec<usize>]) {
    let place = choose(3);
    let env = Env::new();
    {
        let mut s: Sim<P, X> = Sim::new();
        let shapes = pick_shapes::<P>(2);
        for i in 0..3 {
            let v = s.val(&shapes[i % shapes.len()]);
            let d = P::direct(&v, &mut |_| 0, &env);
            s.push(v, d);
        }
        for lens in g {
            let mut over = false;
            let size = T::size(&mut lens.iter(), &mut over);
            if size <= IMAX && place != 2 {
                continue; // merely too large for this machine: an ordinary failed allocation
            }
            if size < 1 << 40 {
                continue;
            }
            op();
            log(|| format!("create {} with lengths {:?} (size {}{})", T::nm(), lens, size, if over { ", overflowing" } else { "" }));
            let i = T::init(&mut lens.iter());
            let r0 = requests();
            let l0 = mc::tok::live();
            let ok = match place {
                0 => catch(|| lib(|| std::mem::forget(VBox::<T>::new(i)))),
                1 => catch(|| lib(|| std::mem::forget(Owned::<T>::new_in(i, &env.bump)))),
                _ => {
                    let mut q: Seq<T, X> = lib(|| Seq::new());
                    let r = catch(|| lib(|| q.push(i)));
                    check_eq!((q.len(), q.offset()), (0, 0), "length and offset of the sequence that refused an object");
                    lib(|| drop(q));
                    r
                }
            };
            check!(ok.is_none(), "creating {} with lengths {:?} ({} bytes) did not panic", T::nm(), lens, size);
            check!(place == 2 || size <= IMAX || requests() == r0, "memory was requested for an impossible object: {} with lengths {:?}", T::nm(), lens);
            check!(mc::tok::live() <= l0, "values of the refused initializer were not destroyed");
            s.observe(0);
            crate_check();
        }
        s.drop_seq();
    }
    drop(env);
}
fn crate_check() {
    mc::alloc::ST.with(|s| s.check_live());
    stop_if_violated();
}

/// A sequence that already holds elements refuses an impossible element of the same type.
fn push_huge<P: Pay, L: LenN, X: Ix>(lens: &[usize]) {
    let env = Env::new();
    {
        let mut s: Sim<Array<P, L>, X> = Sim::new();
        let k = choose(4);
        for n in 0..k {
            let v = s.val(&[n * 3]);
            let d = <Array<P, L>>::direct(&v, &mut |_| 0, &env);
            s.push(v, d);
        }
        s.observe(0);
        for &n in lens {
            op();
            let size = std::mem::size_of::<P>() as u128 * n as u128;
            if size < 1 << 40 {
                continue;
            }
            log(|| format!("push Array<{},{}> of {} elements", P::NAME, L::N, n));
            let i = SizedInit(L::from_usize(n).unwrap(), Never);
            let ok = catch(|| lib(|| s.s().push(i)));
            check!(ok.is_none(), "pushing an array of {} elements of {} bytes did not panic", n, std::mem::size_of::<P>());
            s.observe(0);
            crate_check();
        }
        let v = s.val(&[2]);
        let d = <Array<P, L>>::direct(&v, &mut |_| 0, &env);
        s.push(v, d);
        s.observe(0);
        s.drop_seq();
    }
    drop(env);
}

static UNITS: [(); usize::MAX] = [(); usize::MAX];
fn fits<L: LenN>(n: usize) -> bool {
    n as u128 <= L::MAX as u128
}
fn convert<L: LenN>() {
    let mut ns: Vec<usize> = (0..40).collect();
    for p in [7u32, 8, 15, 16, 31, 32, 48, 63] {
        for d in 0..20usize {
            ns.push((1usize << p) - d.min(1 << p));
            ns.push((1usize << p) + d);
        }
        ns.push((1usize << p) * 2 - 1);
        ns.push((3usize << p.min(62)) + 5);
    }
    ns.push(usize::MAX);
    ns.push(usize::MAX - 1);
    let ns = host(|| ns.clone());
    for &n in &ns {
        op();
        let l = L::from_usize(n);
        check_eq!(l.is_some(), fits::<L>(n), "{}::from_usize({}) gives a length", L::N, n);
        if let Some(l) = l {
            check_eq!(l.as_usize(), n, "{}::from_usize({}).as_usize()", L::N, n);
        }
        let u: &[()] = &UNITS[..n];
        let a = Array::<(), L>::try_copy(u);
        check_eq!(a.is_some(), fits::<L>(n), "Array<(),{}>::try_copy of {} elements succeeds", L::N, n);
        check_eq!(Array::<(), L>::try_clone_from_slice(u).is_some(), fits::<L>(n), "Array<(),{}>::try_clone_from_slice of {} elements succeeds", L::N, n);
        if let Some(a) = a {
            let b = lib(|| VBox::new(a));
            check_eq!(b.len(), n, "length of Array<(),{}>", L::N);
            check_eq!(b.len_short().as_usize(), n, "len_short of Array<(),{}>", L::N);
            check_eq!(b.calculate_layout().size(), std::mem::size_of::<L>(), "size of Array<(),{}>", L::N);
            lib(|| drop(b));
        }
        let mut h = H::new(n as u64);
        h.u(L::MAX as u64);
        state(h.get(), 0);
    }
}
fn real_bytes<L: LenN>() {
    // real slices and strings around the one- and two-byte limits
    let base = [0usize, 1, 126, 254, 65534][choose(5)];
    let n = base + choose(6);
    let pad = choose(4); // the last character takes 1..4 bytes
    let bytes: Vec<u8> = host(|| (0..n).map(|i| (i * 7) as u8).collect());
    let env = Env::new();
    {
        let a = Array::<u8, L>::try_copy(&bytes);
        check_eq!(a.is_some(), fits::<L>(n), "Array<u8,{}>::try_copy of {} bytes succeeds", L::N, n);
        if let Some(a) = a {
            let b = lib(|| VBox::new(a));
            check!(b[..] == bytes[..], "content of Array<u8,{}> of {} bytes", L::N, n);
            lib(|| drop(b));
        }
        let a = Array::<u8, L>::try_clone_from_slice(&bytes);
        check_eq!(a.is_some(), fits::<L>(n), "Array<u8,{}>::try_clone_from_slice of {} bytes succeeds", L::N, n);
        let c = ['a', 'é', '字', '🦀'][pad];
        if n >= c.len_utf8() {
            let mut t = host(|| "x".repeat(n - c.len_utf8()));
            host(|| t.push(c));
            let s = Str::<L>::try_copy(host(|| env.raw(t.clone())));
            check_eq!(s.is_some(), fits::<L>(n), "Str<{}>::try_copy of {} bytes succeeds", L::N, n);
            if let Some(s) = s {
                let b = lib(|| VBox::new(s));
                check!(**b == t[..], "content of Str<{}> of {} bytes", L::N, n);
                lib(|| drop(b));
            }
            drop(t);
        }
        op();
    }
    host(|| drop(bytes));
    drop(env);
}
/// slices over 4 GiB of untouched zero pages
fn giant<L: LenN>() {
    extern "C" {
        fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        fn munmap(a: *mut u8, n: usize) -> i32;
    }
    let total = (1usize << 32) + 4096;
    unsafe {
        let p = mmap(std::ptr::null_mut(), total, 1, 0x4022, -1, 0);
        if p as isize == -1 {
            return;
        }
        for n in [(1usize << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 255, (1 << 31) + 7] {
            op();
            let s = std::slice::from_raw_parts(p, n);
            check_eq!(Array::<u8, L>::try_copy(s).is_some(), fits::<L>(n), "Array<u8,{}>::try_copy of {} bytes succeeds", L::N, n);
            check_eq!(Array::<u8, L>::try_clone_from_slice(s).is_some(), fits::<L>(n), "Array<u8,{}>::try_clone_from_slice of {} bytes succeeds", L::N, n);
            let t = std::str::from_utf8_unchecked(s);
            let i = Str::<L>::try_copy(t);
            check_eq!(i.is_some(), fits::<L>(n), "Str<{}>::try_copy of {} bytes succeeds", L::N, n);
            if let Some(i) = i {
                let l = Initializer::<Str<L>>::calculate_layout_cautious(&i).map(|l| l.size());
                check_eq!(l, Some(n + std::mem::size_of::<L>()), "predicted size of Str<{}> of {} bytes", L::N, n);
            }
        }
        munmap(p, total);
    }
}

fn add<T: Big>(v: &mut Vec<Section>, t: Tier) {
    let g = grid::<T>(t.pick(40, 90));
    let n = g.len();
    let per = n.div_ceil(2000).max(1);
    // everything at once costs nothing; creation only in a coarser grid for types with many parts
    let g2: Vec<Vec<usize>> = host(|| { let k = (n / t.pick(3000, 40000)).max(1); g.iter().step_by(k).cloned().collect() });
    let chunks: Vec<Vec<Vec<usize>>> = host(|| g.chunks(n.div_ceil(per)).map(|c| c.to_vec()).collect());
    v.push(Section { name: format!("predicted size of {} ({} length vectors)", T::nm(), n), dev: 0, body: Box::new(move || predict::<T>(&chunks[choose(chunks.len())])) });
    let n2 = g2.len();
    let chunks: Vec<Vec<Vec<usize>>> = host(|| g2.chunks(200).map(|c| c.to_vec()).collect());
    v.push(Section {
        name: format!("creation of {} ({} length vectors)", T::nm(), n2),
        dev: 0,
        body: Box::new(move || {
            let c = &chunks[choose(chunks.len())];
            if choose(2) == 0 { create::<T, Str<u8>, C>(c) } else { create::<T, Array<T8, u16>, U>(c) }
        }),
    });
}
fn huge_lens<P: Pay, L: LenN>(v: &mut Vec<Section>, t: Tier) {
    let l = around(std::mem::size_of::<P>(), L::MAX, t.pick(40, 90));
    v.push(Section {
        name: format!("huge push onto Array<{},{}>", P::NAME, L::N),
        dev: 0,
        body: Box::new(move || if choose(2) == 0 { push_huge::<P, L, C>(&l) } else { push_huge::<P, L, U>(&l) }),
    });
}
fn conv<L: LenN>(v: &mut Vec<Section>) {
    v.push(Section { name: format!("length conversions to {}", L::N), dev: 0, body: Box::new(convert::<L>) });
    v.push(Section { name: format!("slices and strings to {}", L::N), dev: 0, body: Box::new(real_bytes::<L>) });
    v.push(Section { name: format!("giant slices to {}", L::N), dev: 0, body: Box::new(giant::<L>) });
}
fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    conv::<u8>(&mut v);
    conv::<u16>(&mut v);
    conv::<u32>(&mut v);
    conv::<u64>(&mut v);
    conv::<usize>(&mut v);
    macro_rules! arrays { ($($P:ty),*) => { $(
        add::<Array<$P, usize>>(&mut v, t);
        add::<Array<$P, u64>>(&mut v, t);
        add::<Array<$P, u32>>(&mut v, t);
        huge_lens::<$P, usize>(&mut v, t);
        huge_lens::<$P, u64>(&mut v, t);
    )* } }
    arrays!(u8, u16, [u8; 3], u64, A16, A64, T12);
    add::<Tup2<Array<u8, usize>, Array<u8, usize>>>(&mut v, t);
    add::<Tup2<Array<u8, usize>, Array<u16, u64>>>(&mut v, t);
    add::<Tup2<Array<A16, u64>, FixedLen<u8>>>(&mut v, t);
    add::<Tup2<FixedLen<T8>, Array<u8, usize>>>(&mut v, t);
    add::<Tup2<Array<u8, usize>, FixedLen<A16>>>(&mut v, t);
    add::<Tup2<Array<u8, usize>, FixedLen<A64>>>(&mut v, t);
    add::<Tup2<Array<u8, usize>, Array<A64, u8>>>(&mut v, t);
    add::<Tup3<FixedLen<u8>, Array<[u8; 3], usize>, FixedLen<u64>>>(&mut v, t);
    add::<Tup3<Array<u8, u8>, FixedLen<u16>, Array<u8, usize>>>(&mut v, t);
    add::<Tup3<Array<u8, usize>, Array<u8, usize>, Array<u8, usize>>>(&mut v, t);
    add::<Tup3<Array<u64, usize>, Tup2<Array<u8, usize>, FixedLen<u32>>, Array<u8, u8>>>(&mut v, t);
    add::<Tup4<Array<u8, usize>, Array<u8, u8>, FixedLen<A16>, Array<u16, usize>>>(&mut v, t);
    add::<Tup5<Array<u8, usize>, Array<u64, usize>, FixedLen<T8>, Array<u8, u8>, Array<u16, usize>>>(&mut v, t);
    add::<Tup2<Tup2<Tup2<Array<u8, usize>, FixedLen<u8>>, FixedLen<u64>>, FixedLen<A16>>>(&mut v, t);
    add::<W<Array<u16, usize>>>(&mut v, t);
    add::<W<W<Tup2<FixedLen<u8>, Array<u64, usize>>>>>(&mut v, t);
    add::<BigA>(&mut v, t);
    add::<BigB>(&mut v, t);
    add::<BigC>(&mut v, t);
    add::<Tup2<FixedLen<u8>, BigA>>(&mut v, t);
    add::<W<BigB>>(&mut v, t);
    v
}
fn main() {
    set_mask(CONTENT | OFFSET | VALID | MEM | TOK);
    mc::driver::main(
        Meta {
            id: "C07",
            level: "model_checking",
            rule: "every vector of part lengths around 2^63 and 2^64 bytes (and around the limits of the length types) x every nesting: prediction against exact 128-bit arithmetic, creation in a box, an arena and a sequence must panic without running the initializer",
            bounds: "43 types (7 element sizes x 3 length types, tuples, wrappers, macro structs up to 5 variable parts, two of them large at a time); window of 40 (quick) or 90 (thorough) lengths around each limit; slices and strings up to 65540 real bytes and 4 GiB + 255 mapped bytes".into(),
            assumptions: &["sizes that are representable and at most isize::MAX but exceed this machine's memory are ordinary failed allocations (see C08)"],
        },
        secs,
    );
}
