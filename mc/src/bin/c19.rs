use mc::alloc::{bytes, host, lib, requests};
use mc::driver::*;
use mc::explore::*;
use mc::sim::*;
use mc::subj::*;
use mc::zoo::*;
use mc::{gcheck, gcheck_eq};
use varlen::Seq;

/// What one sequence has asked for since it was created, against what was put into it.
struct Acc<T: Subj, I: Ix> {
    sim: Sim<T, I>,
    reqs: usize,
    bytes: usize,
    /// most alignment units ever held at once, and total units pushed
    units: usize,
}
fn log2(x: usize) -> usize {
    (usize::BITS - x.leading_zeros()) as usize
}
impl<T: Subj, I: Ix> Acc<T, I> {
    fn new() -> Self {
        let r = requests();
        let sim = Sim::new();
        gcheck_eq!(GROWTH, requests() - r, 0, "requests for storage by creating an empty sequence");
        Acc { sim, reqs: 0, bytes: 0, units: 0 }
    }
    /// Account for pushes of elements of these spans done in one go.
    fn account(&mut self, r0: usize, b0: usize, spans: &[usize], cap0: usize, occ0: usize) {
        let (r, b) = (requests() - r0, bytes() - b0);
        let need: usize = spans.iter().sum();
        self.units += need;
        gcheck!(GROWTH, !(occ0 + need <= cap0 && r > 0), "storage requested {} times although there was room (occupied {}, needed {}, capacity {})", r, occ0, need, cap0);
        self.reqs += r;
        self.bytes += b;
        let pushed = self.units * T::r_align();
        let max = 8 + 6 * log2(self.units);
        gcheck!(GROWTH, self.reqs <= max, "storage requested {} times for {} bytes pushed ({} units); logarithmic growth allows {}", self.reqs, pushed, self.units, max);
        let max = 10 * pushed + 128 * T::r_align();
        gcheck!(GROWTH, self.bytes <= max, "{} bytes requested for {} bytes pushed; a constant factor of 10 allows {}", self.bytes, pushed, max);
        let cap = self.sim.s().capacity_in_offsets();
        gcheck!(GROWTH, cap >= occ0 + need, "capacity {} below occupied {}", cap, occ0 + need);
        gcheck!(GROWTH, cap >= cap0, "capacity shrank from {} to {} by pushing", cap0, cap);
        if r == 0 {
            gcheck_eq!(GROWTH, cap, cap0, "capacity reported after pushing without a request");
        }
    }
    fn push(&mut self, v: Val, route: usize, env: &Env) {
        let i = any_route::<T>(route, &v, &mut |_| 0, env);
        let s = Sim::<T, I>::span(&v);
        let (cap, occ) = (self.sim.s().capacity_in_offsets(), self.sim.occ);
        let (r, b) = (requests(), bytes());
        self.sim.push(v, i);
        self.account(r, b, &[s], cap, occ);
    }
    fn extend(&mut self, vs: Vec<Val>, how: usize, env: &Env) {
        op();
        log(|| format!("extend with {} elements ({})", vs.len(), how));
        let spans: Vec<usize> = host(|| vs.iter().map(Sim::<T, I>::span).collect());
        let (cap, occ) = (self.sim.s().capacity_in_offsets(), self.sim.occ);
        let is: Vec<_> = host(|| vs.iter().map(|v| T::direct(v, &mut |_| 0, env)).collect());
        let (r, b) = (requests(), bytes());
        match how {
            0 => lib(|| self.sim.s().extend(is)),
            // an array, an iterator of known length that does not say so
            2 if is.len() == 1 => {
                let one = is.into_iter().next().unwrap();
                lib(|| self.sim.s().extend([one]))
            }
            2 => lib(|| self.sim.s().extend(mc::world::Hinted { it: is.into_iter(), hint: 4 })),
            // an iterator without a size
            _ => {
                let mut it = is.into_iter();
                lib(|| self.sim.s().extend(std::iter::from_fn(|| it.next())));
                host(|| drop(it));
            }
        }
        for v in vs {
            self.sim.appended(v);
        }
        self.account(r, b, &spans, cap, occ);
        host(|| drop(spans));
    }
    fn take(&mut self, k: usize, forget: bool) {
        let cap = self.sim.s().capacity_in_offsets();
        let r = requests();
        self.sim.take(k, forget, |_, o, _| lib(|| drop(o)));
        gcheck_eq!(GROWTH, requests() - r, 0, "requests for storage by taking elements out");
        gcheck_eq!(GROWTH, self.sim.s().capacity_in_offsets(), cap, "capacity after taking elements out");
    }
    fn state(&self) {
        let mut h = H::new(self.units as u64);
        h.u(self.reqs as u64);
        h.u(self.bytes as u64);
        h.u(self.sim.occ as u64);
        h.u(self.sim.model.len() as u64);
        state(h.get(), 0);
    }
}
#[derive(Clone, Copy)]
enum O {
    Push(usize, usize),
    Extend(usize, usize),
    Take(usize, bool),
    Collect,
    BadPush,
    Swap,
}
/// Histories over the alphabet.
fn hist<T: Subj, I: Ix>(depth: usize, shapes: &[Vec<usize>], ops: &[O]) {
    let env = Env::new();
    {
        let mut a = Acc::<T, I>::new();
        let mut b = Acc::<T, I>::new();
        for _ in 0..depth {
            match ops[choose(ops.len())] {
                O::Push(s, r) => {
                    let v = a.sim.val(&shapes[s.min(shapes.len() - 1)]);
                    a.push(v, r, &env);
                }
                O::Extend(n, how) => {
                    let vs = host(|| (0..n).map(|i| T::make(&shapes[i % shapes.len()], i as u64)).collect());
                    a.extend(vs, how, &env);
                }
                O::Take(k, f) => a.take(k.min(a.sim.model.len()), f),
                O::Collect => {
                    // a new sequence from what this one holds
                    op();
                    log(|| "collect into a new sequence".into());
                    let spans: Vec<usize> = host(|| a.sim.model.iter().map(Sim::<T, I>::span).collect());
                    let mut n = Acc::<T, I>::new();
                    let (r, bb) = (requests(), bytes());
                    let s: Seq<T, I> = lib(|| a.sim.s().take_elems().collect());
                    n.sim.drop_seq();
                    n.sim.seq = Some(s);
                    let model = std::mem::take(&mut a.sim.model);
                    a.sim.clear_model();
                    for v in model {
                        n.sim.appended(v);
                    }
                    n.account(r, bb, &spans, 0, 0);
                    b.sim.drop_seq();
                    b = n;
                    std::mem::swap(&mut a, &mut b);
                    host(|| drop(spans));
                }
                O::BadPush => {
                    op();
                    log(|| "push whose initializer panics".into());
                    let v = a.sim.val(&shapes[0]);
                    let cap = a.sim.s().capacity_in_offsets();
                    let fits = a.sim.occ + Sim::<T, I>::span(&v) <= cap;
                    let i = any_route::<T>(0, &v, &mut |_| 0, &env);
                    let r = requests();
                    let p = catch(|| lib(|| a.sim.s().push(mc::world::PanicInit::<T>(i, true))));
                    gcheck!(GROWTH, p.is_none(), "panic swallowed");
                    gcheck!(GROWTH, !(fits && requests() > r), "a push that panicked requested storage although there was room");
                    // growth for an element that was never stored is growth all the same
                    a.reqs += requests() - r;
                    a.units += Sim::<T, I>::span(&v);
                    host(|| drop(v));
                }
                O::Swap => {
                    op();
                    log(|| "swap the two sequences".into());
                    std::mem::swap(&mut a, &mut b);
                }
            }
            a.state();
            stop_if_violated();
        }
        a.sim.observe(0);
        b.sim.observe(0);
        a.sim.drop_seq();
        b.sim.drop_seq();
    }
    drop(env);
}
/// (elements at a time by `extend` or 0 for `push`, how or by what route)
const STYLES: [(usize, usize); 5] = [(0, 0), (1, 0), (1, 2), (3, 1), (17, 2)];
/// Long runs: every pair of shapes and period, checked at every prefix.
fn long<T: Subj, I: Ix>(n: usize, shapes: &[Vec<usize>]) {
    let env = Env::new();
    {
        let (x, y) = (choose(shapes.len()), choose(shapes.len()));
        let period = [1usize, 2, 7, 64][choose(4)];
        // how they get there: pushed, by `extend` k at a time
        let style = choose(STYLES.len());
        let (k, how) = STYLES[style];
        log(|| format!("{} elements {:?}, every {}th {:?}, {}", n, shapes[x], period, shapes[y], if k == 0 { format!("pushed (route {})", how) } else { format!("by extend, {} at a time ({})", k, how) }));
        let mut a = Acc::<T, I>::new();
        let make = |i: usize| host(|| T::make(&shapes[if i % period == period - 1 { y } else { x }], i as u64));
        let fill = |a: &mut Acc<T, I>, n: usize, look: bool| {
            let mut i = 0;
            while i < n {
                if k == 0 {
                    a.push(make(i), how, &env);
                    i += 1;
                } else {
                    let vs = host(|| (i..n.min(i + k)).map(make).collect());
                    a.extend(vs, how, &env);
                    i += k;
                }
                if look && i % 64 <= 1 {
                    stop_if_violated();
                    a.state();
                }
            }
        };
        let n = if k == 0 && how == 0 { n } else { n / 2 };
        fill(&mut a, n, true);
        // taken out and filled again: nothing is requested
        let again = choose(2);
        let r = requests();
        let m = a.sim.model.len();
        a.take(if again == 0 { 0 } else { m / 2 }, false);
        fill(&mut a, n, false);
        gcheck_eq!(GROWTH, requests() - r, 0, "requests for storage by filling the sequence again");
        a.sim.drop_seq();
    }
    drop(env);
}
/// All sequences of sizes, spread over orders of magnitude.
fn sizes<T: Subj, I: Ix>(depth: usize, ls: &[usize]) {
    let env = Env::new();
    {
        let mut a = Acc::<T, I>::new();
        for _ in 0..depth {
            let l = ls[choose(ls.len())];
            let lens = host(|| T::shapes(&[l])[0].clone());
            let v = a.sim.val(&lens);
            host(|| drop(lens));
            a.push(v, 0, &env);
            stop_if_violated();
        }
        a.state();
        let vs = host(|| a.sim.model.clone());
        let r = requests();
        a.take(1, false);
        for v in host(|| vs.into_iter().rev().collect::<Vec<_>>()) {
            a.push(v, 0, &env);
        }
        gcheck_eq!(GROWTH, requests() - r, 0, "requests for storage by filling the sequence again in another order");
        a.sim.observe(0);
        a.sim.drop_seq();
    }
    drop(env);
}
/// Fill, empty in every way, fill again, several times.
fn refill<T: Subj, I: Ix>(n: usize, shapes: &[Vec<usize>]) {
    let env = Env::new();
    {
        let n = choose(n + 1);
        let x = choose(shapes.len());
        let mut a = Acc::<T, I>::new();
        for round in 0..3 {
            let r = requests();
            for i in 0..n {
                let v = host(|| T::make(&shapes[(x + (i % 3 == 2) as usize) % shapes.len()], (i + round) as u64));
                a.push(v, 0, &env);
            }
            if round > 0 {
                gcheck_eq!(GROWTH, requests() - r, 0, "requests for storage by filling the sequence again");
            }
            match choose(4) {
                0 => a.take(n, false),
                1 => a.take(0, false),
                2 => a.take(n / 2, false),
                _ => a.take(n / 2, true),
            }
            stop_if_violated();
            a.state();
        }
        a.sim.drop_seq();
    }
    drop(env);
}
/// Far more than the histories hold: elements of one size until this many alignment units are occupied.
fn volume<T: Subj, I: Ix>(v: &mut Vec<Section>, name: &'static str, upto: usize, push: fn(&mut Seq<T, I>, usize)) {
    v.push(Section {
        name: format!("volume {} {} up to {} units", seq_name::<T, I>(), name, upto),
        dev: 0,
        body: Box::new(move || {
            op();
            let upto = upto << choose(2);
            log(|| format!("{} units", upto));
            let mut q: Seq<T, I> = lib(Seq::new);
            let (mut reqs, mut byts, mut n) = (0, 0, 0);
            while q.offset() < upto {
                let (r, b, occ, cap) = (requests(), bytes(), q.offset(), q.capacity_in_offsets());
                lib(|| push(&mut q, n));
                n += 1;
                let (r, b) = (requests() - r, bytes() - b);
                let units = q.offset();
                gcheck!(GROWTH, units > occ, "pushing does not occupy anything");
                gcheck!(GROWTH, !(units <= cap && r > 0), "storage requested although there was room (occupied {}, capacity {})", units, cap);
                gcheck!(GROWTH, q.capacity_in_offsets() >= units, "capacity {} below occupied {}", q.capacity_in_offsets(), units);
                reqs += r;
                byts += b;
                let max = 8 + 6 * log2(units);
                gcheck!(GROWTH, reqs <= max, "storage requested {} times for {} units pushed; logarithmic growth allows {}", reqs, units, max);
                let max = (10 * units + 128) * T::r_align();
                gcheck!(GROWTH, byts <= max, "{} bytes requested for {} units of {} pushed; a constant factor of 10 allows {}", byts, units, T::r_align(), max);
                if r > 0 {
                    stop_if_violated();
                }
            }
            state(n as u64, 0);
            let (r, occ) = (requests(), q.offset());
            lib(|| drop(q.take_elems()));
            for k in 0..n {
                lib(|| push(&mut q, k));
            }
            gcheck_eq!(GROWTH, requests() - r, 0, "requests for storage by filling the sequence again");
            gcheck_eq!(GROWTH, q.offset(), occ, "units occupied by the same elements");
            // another sequence from this one
            let (r, b) = (requests(), bytes());
            let s: Seq<T, I> = lib(|| q.take_elems().collect());
            let (r, b) = (requests() - r, bytes() - b);
            gcheck!(GROWTH, r <= 8 + 6 * log2(occ) && b <= (10 * occ + 128) * T::r_align(), "collecting {} units requested storage {} times, {} bytes", occ, r, b);
            gcheck_eq!(GROWTH, s.offset(), occ, "units occupied by the collected elements");
            lib(|| drop((s, q)));
        }),
    });
}
fn volumes(v: &mut Vec<Section>, k: usize) {
    use varlen::array::SizedInit;
    use varlen::array_init::FillWithDefault;
    use varlen::FixedLen;
    macro_rules! vol {
        ($($t:ty, $name:expr, $upto:expr, $init:expr;)*) => { $(
            volume::<$t, U>(v, $name, $upto << k, |q, i| { let _ = i; q.push($init(i)) });
            volume::<$t, C>(v, $name, $upto << k, |q, i| { let _ = i; q.push($init(i)) });
        )* };
    }
    vol! {
        Array<u8, u8>, "of 255 bytes", 3 << 20, |_| SizedInit(255u8, FillWithDefault);
        Array<u8, u8>, "of 0 to 255 bytes", 3 << 19, |i| SizedInit((i * 89 % 256) as u8, FillWithDefault);
        Array<u8, u16>, "of 65535 bytes", 5 << 20, |_| SizedInit(65535u16, FillWithDefault);
        Array<u64, u16>, "of 9000 bytes", 1 << 20, |_| SizedInit(1124u16, FillWithDefault);
        Array<u8, u32>, "of 3 MB", 5 << 20, |_| SizedInit(3_000_000u32, FillWithDefault);
        FixedLen<u8>, "", 3 << 20, |i| FixedLen(i as u8);
        FixedLen<u64>, "", 3 << 19, |i| FixedLen(i as u64);
    }
}
const OPS: [O; 11] = [O::Push(0, 0), O::Push(1, 1), O::Push(2, 2), O::Push(3, 3), O::Extend(4, 0), O::Extend(3, 1), O::Extend(1, 2), O::Take(1, false), O::Take(0, true), O::Collect, O::Swap];
const OPSB: [O; 6] = [O::Push(0, 0), O::Push(1, 0), O::Extend(2, 1), O::Take(0, false), O::BadPush, O::Push(3, 0)];
fn sec<T: Subj, I: Ix>(v: &mut Vec<Section>, depth: usize, n: usize) {
    let shapes = pick_shapes::<T>(4);
    let s = shapes.clone();
    v.push(Section { name: format!("history {} depth {}", seq_name::<T, I>(), depth), dev: 0, body: Box::new(move || hist::<T, I>(depth, &s, &OPS)) });
    let s = shapes.clone();
    v.push(Section { name: format!("history with panics {} depth {}", seq_name::<T, I>(), depth + 1), dev: 0, body: Box::new(move || hist::<T, I>(depth + 1, &s, &OPSB)) });
    v.push(Section { name: format!("refill {} up to {}", seq_name::<T, I>(), n), dev: 0, body: Box::new(move || refill::<T, I>(n, &shapes)) });
}
fn all<T: Subj>(v: &mut Vec<Section>, depth: usize, n: usize) {
    sec::<T, U>(v, depth, n);
    sec::<T, C>(v, depth, n);
}
fn lon<T: Subj>(v: &mut Vec<Section>, n: usize) {
    let shapes = pick_shapes::<T>(5);
    let s = shapes.clone();
    v.push(Section { name: format!("long {} {} pushes", seq_name::<T, U>(), n), dev: 0, body: Box::new(move || long::<T, U>(n, &s)) });
    v.push(Section { name: format!("long {} {} pushes", seq_name::<T, C>(), n), dev: 0, body: Box::new(move || long::<T, C>(n, &shapes)) });
}
fn siz<T: Subj>(v: &mut Vec<Section>, depth: usize, ls: &'static [usize]) {
    v.push(Section { name: format!("sizes {} depth {}", seq_name::<T, U>(), depth), dev: 0, body: Box::new(move || sizes::<T, U>(depth, ls)) });
    v.push(Section { name: format!("sizes {} depth {}", seq_name::<T, C>(), depth), dev: 0, body: Box::new(move || sizes::<T, C>(depth, ls)) });
}
fn secs(t: Tier) -> Vec<Section> {
    let mut v = vec![];
    mc::zoo_small!(all, &mut v, t.pick(4, 5), t.pick(14, 40));
    mc::zoo_rest!(all, &mut v, t.pick(3, 4), t.pick(7, 15));
    let n = t.pick(1500, 6000);
    lon::<FixedLen<u8>>(&mut v, n);
    lon::<FixedLen<()>>(&mut v, n);
    lon::<FixedLen<[u8; 3]>>(&mut v, n);
    lon::<FixedLen<A64>>(&mut v, n);
    lon::<Array<u8, u8>>(&mut v, n);
    lon::<Array<u64, u16>>(&mut v, n);
    lon::<Array<A16, u8>>(&mut v, n);
    lon::<Str>(&mut v, n);
    lon::<Str<u8>>(&mut v, n);
    lon::<Tup3<FixedLen<u8>, Array<u64, u16>, Str<u8>>>(&mut v, n);
    lon::<few::SAe>(&mut v, n);
    static LS: [usize; 6] = [0, 1, 9, 80, 700, 6000];
    siz::<Array<u8, u16>>(&mut v, t.pick(5, 6), &LS);
    siz::<Array<u8, u8>>(&mut v, t.pick(5, 6), &[0, 1, 2, 6, 40, 255]);
    siz::<Array<A64, u16>>(&mut v, t.pick(4, 5), &LS);
    siz::<Array<(), u16>>(&mut v, 3, &LS);
    siz::<Str>(&mut v, t.pick(4, 5), &LS);
    siz::<Tup2<Array<u16, u16>, Array<u8, u16>>>(&mut v, t.pick(4, 5), &LS);
    volumes(&mut v, t.pick(0, 3));
    v
}
fn main() {
    set_mask(GROWTH);
    mc::driver::main(
        Meta {
            id: "C19",
            level: "model_checking",
            rule: "every history over the alphabet, every pattern of pushed sizes, every way of emptying and refilling; after every operation the number of storage requests and bytes requested (counted by the checking allocator) is compared with a logarithmic and a linear bound in what was pushed, and must be zero whenever there was room",
            bounds: "40 element types, both indexing modes; histories of 4..6 operations over alphabets of 11 and 6; patterns of up to 1500 pushes (6000 thorough) x 5x5 shapes x 4 periods x 5 ways of appending (push, extend by 1, 3 or 17); all sequences of 5 sizes out of 6 spanning 0..6000; without a model, up to 2^21..2^23 alignment units (thorough 2^24..2^27) of elements of seven sizes; constants: at most 8+6*log2(units) requests and 10x the bytes pushed plus 128 alignment units".into(),
            assumptions: &[],
        },
        secs,
    );
}
