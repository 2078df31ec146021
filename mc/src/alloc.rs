//! The model allocator: global allocator of every harness binary.
//! Blocks requested while `tracking` is on (i.e. while library code runs) are checked strictly;
//! everything else (harness bookkeeping) is passed through with a plain header.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::null_mut;

const MAGIC_LIVE: u64 = 0x11fe_b10c_5afe_c0de;
const MAGIC_DEAD: u64 = 0xdead_b10c_0bad_f00d;
const FRONT: usize = 64; // front canary of tracked blocks
const BACK: usize = 192; // back canary of tracked blocks
/// The canaries of a block depend on the block and the position: a copy of one block's surroundings over
/// another's (an overrun in a copy) changes them.
fn can(serial: usize, i: usize, back: bool) -> u8 {
    (serial as u8).wrapping_mul(151) ^ (i as u8).wrapping_mul(29) ^ if back { 0x3C } else { 0xC3 }
}
const FREED: u8 = 0xDD;

#[repr(C)]
struct Hdr {
    base: *mut u8,
    total: usize,
    base_align: usize,
    size: usize,
    align: usize,
    tracked: usize,
    prev: *mut Hdr,
    next: *mut Hdr,
    ptr: *mut u8,
    serial: usize,
    magic: u64,
}
const HDR: usize = std::mem::size_of::<Hdr>();

pub struct St {
    pub tracking: Cell<bool>,
    live: Cell<*mut Hdr>,
    quar: Cell<*mut Hdr>,
    pub requests: Cell<usize>,
    pub bytes: Cell<usize>,
    pub live_blocks: Cell<usize>,
    pub live_bytes: Cell<usize>,
    pub serial: Cell<usize>,
    pub poison: Cell<u8>,
    /// called for each tracked request when set; true = fail it
    pub fault: Cell<Option<fn(Layout) -> bool>>,
    pub faults_hit: Cell<usize>,
    pub last: Cell<(usize, usize)>,
}
thread_local! {
    pub static ST: St = const { St {
        tracking: Cell::new(false), live: Cell::new(null_mut()), quar: Cell::new(null_mut()),
        requests: Cell::new(0), bytes: Cell::new(0), live_blocks: Cell::new(0), live_bytes: Cell::new(0),
        serial: Cell::new(0), poison: Cell::new(0xA5), fault: Cell::new(None), faults_hit: Cell::new(0),
        last: Cell::new((0,0)),
    } };
}

fn bad(kind: &'static str, a: usize, b: usize) {
    crate::explore::record_raw(crate::explore::MEM, kind, a, b);
}

pub struct ModelAlloc;

unsafe fn hdr_of(p: *mut u8) -> *mut Hdr {
    ((p as usize - (HDR + FRONT)) & !15) as *mut Hdr
}

unsafe fn check_canary(h: *mut Hdr) -> bool {
    let p = (*h).ptr;
    let f = std::slice::from_raw_parts(p.sub(FRONT), FRONT);
    let b = std::slice::from_raw_parts(p.add((*h).size), BACK);
    let mut ok = true;
    let n = (*h).serial;
    if f.iter().enumerate().any(|(i, &x)| x != can(n, i, false)) {
        bad("write in front of an allocation of size/align", (*h).size, (*h).align);
        ok = false;
    }
    if let Some(i) = b.iter().enumerate().position(|(i, &x)| x != can(n, i, true)) {
        bad("write past the end of an allocation: size/bytes past end", (*h).size, i);
        ok = false;
    }
    ok
}

impl St {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > (1 << 30) {
            if self.tracking.get() {
                self.requests.set(self.requests.get() + 1);
                self.last.set((l.size(), l.align()));
            }
            return null_mut();
        }
        let tracked = self.tracking.get() && !std::thread::panicking();
        if tracked {
            self.requests.set(self.requests.get() + 1);
            self.bytes.set(self.bytes.get() + l.size());
            self.last.set((l.size(), l.align()));
            if l.size() == 0 {
                bad("zero-size allocation requested (align)", l.align(), 0);
            }
            if let Some(f) = self.fault.get() {
                self.tracking.set(false);
                let fail = f(l);
                self.tracking.set(true);
                if fail {
                    self.faults_hit.set(self.faults_hit.get() + 1);
                    return null_mut();
                }
            }
        }
        let lead = HDR + FRONT + 15;
        // The block is aligned to exactly what was asked for and no more.
        let (ba, step) = if tracked { ((2 * l.align()).max(16), 2 * l.align()) } else { (l.align().max(16), l.align()) };
        let off = ((lead + step - 1) & !(step - 1)) + if tracked { l.align() } else { 0 };
        let total = off + l.size() + BACK;
        let base = System.alloc(Layout::from_size_align_unchecked(total, ba));
        if base.is_null() {
            return base;
        }
        let p = base.add(off);
        let h = hdr_of(p);
        (*h) = Hdr {
            base, total, base_align: ba, size: l.size(), align: l.align(), tracked: tracked as usize,
            prev: null_mut(), next: null_mut(), ptr: p, serial: self.serial.get() + 1, magic: MAGIC_LIVE,
        };
        if tracked {
            let n = self.serial.get() + 1;
            self.serial.set(n);
            for i in 0..FRONT {
                *p.sub(FRONT).add(i) = can(n, i, false);
            }
            for i in 0..BACK {
                *p.add(l.size()).add(i) = can(n, i, true);
            }
            std::ptr::write_bytes(p, self.poison.get(), l.size());
            let n = self.live.get();
            (*h).next = n;
            if !n.is_null() {
                (*n).prev = h;
            }
            self.live.set(h);
            self.live_blocks.set(self.live_blocks.get() + 1);
            self.live_bytes.set(self.live_bytes.get() + l.size());
        }
        p
    }
    unsafe fn unlink(&self, h: *mut Hdr) {
        let (p, n) = ((*h).prev, (*h).next);
        if p.is_null() {
            if self.live.get() == h {
                self.live.set(n);
            }
        } else {
            (*p).next = n;
        }
        if !n.is_null() {
            (*n).prev = p;
        }
        self.live_blocks.set(self.live_blocks.get().wrapping_sub(1));
        self.live_bytes.set(self.live_bytes.get().wrapping_sub((*h).size));
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if self.tracking.get() && (p as usize) < 4096 {
            bad("release of a pointer that was never allocated", p as usize, l.size());
            return;
        }
        let h = hdr_of(p);
        if (*h).magic != MAGIC_LIVE {
            if (*h).magic == MAGIC_DEAD {
                bad("double release of an allocation (size, align)", l.size(), l.align());
            } else {
                bad("release of a pointer that was never allocated (size, align)", l.size(), l.align());
            }
            return;
        }
        if (*h).tracked == 0 {
            let (b, t, a) = ((*h).base, (*h).total, (*h).base_align);
            (*h).magic = MAGIC_DEAD;
            System.dealloc(b, Layout::from_size_align_unchecked(t, a));
            return;
        }
        if (*h).size != l.size() {
            bad("allocation released with a different size: requested/released", (*h).size, l.size());
        }
        if (*h).align != l.align() {
            bad("allocation released with a different alignment: requested/released", (*h).align, l.align());
        }
        check_canary(h);
        self.unlink(h);
        (*h).magic = MAGIC_DEAD;
        std::ptr::write_bytes(p, FREED, (*h).size);
        (*h).next = self.quar.get();
        self.quar.set(h);
    }
    /// Verify the redzones of every live tracked block.
    pub fn check_live(&self) {
        unsafe {
            let mut h = self.live.get();
            while !h.is_null() {
                if !check_canary(h) {
                    return;
                }
                h = (*h).next;
            }
        }
    }
    /// End of an execution: verify and release quarantined blocks. Returns (live blocks, live bytes).
    pub fn drain(&self, leaks_ok: bool) -> (usize, usize) {
        unsafe {
            let mut h = self.quar.get();
            self.quar.set(null_mut());
            while !h.is_null() {
                let n = (*h).next;
                let p = (*h).ptr;
                let s = std::slice::from_raw_parts(p, (*h).size);
                if let Some(i) = s.iter().position(|&x| x != FREED) {
                    bad("write into released memory: size/offset", (*h).size, i);
                } else {
                    check_canary(h);
                }
                let (b, t, a) = ((*h).base, (*h).total, (*h).base_align);
                System.dealloc(b, Layout::from_size_align_unchecked(t, a));
                h = n;
            }
            let (mut n, mut by) = (0, 0);
            let mut h = self.live.get();
            self.live.set(null_mut());
            while !h.is_null() {
                check_canary(h);
                n += 1;
                by += (*h).size;
                let nx = (*h).next;
                let (b, t, a) = ((*h).base, (*h).total, (*h).base_align);
                System.dealloc(b, Layout::from_size_align_unchecked(t, a));
                h = nx;
            }
            self.live.set(null_mut());
            if n > 0 && !leaks_ok {
                crate::explore::record_raw(crate::explore::LEAK, "memory still allocated after all owners are gone: blocks/bytes", n, by);
            }
            self.live_blocks.set(0);
            self.live_bytes.set(0);
            self.requests.set(0);
            self.bytes.set(0);
            self.serial.set(0);
            self.faults_hit.set(0);
            (n, by)
        }
    }
    /// (size, align) recorded for the block at `p`, if it is the start of a live tracked block.
    pub fn block_at(&self, p: usize) -> Option<(usize, usize)> {
        unsafe {
            let mut h = self.live.get();
            while !h.is_null() {
                if (*h).ptr as usize == p {
                    return Some(((*h).size, (*h).align));
                }
                h = (*h).next;
            }
        }
        None
    }
}

unsafe impl GlobalAlloc for ModelAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ST.with(|s| s.alloc(l))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        ST.with(|s| s.dealloc(p, l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let h = hdr_of(p);
        ST.with(|s| {
            if (*h).magic != MAGIC_LIVE {
                bad("realloc of a pointer that is not allocated (size)", l.size(), new);
                return s.alloc(Layout::from_size_align_unchecked(new.max(1), l.align()));
            }
            if (*h).tracked == 1 && ((*h).size != l.size() || (*h).align != l.align()) {
                bad("realloc with a different size than was requested: requested/given", (*h).size, l.size());
            }
            let q = s.alloc(Layout::from_size_align_unchecked(new, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, (*h).size.min(new));
                s.dealloc(p, Layout::from_size_align_unchecked((*h).size, (*h).align));
            }
            q
        })
    }
}

struct Restore(bool);
impl Drop for Restore {
    fn drop(&mut self) {
        ST.with(|s| s.tracking.set(self.0));
    }
}
/// Run library code: its allocations are checked.
#[inline]
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(ST.with(|s| s.tracking.replace(true)));
    f()
}
/// Run harness code from inside a library callback: its allocations are not the library's.
#[inline]
pub fn host<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(ST.with(|s| s.tracking.replace(false)));
    f()
}
pub fn requests() -> usize {
    ST.with(|s| s.requests.get())
}
pub fn bytes() -> usize {
    ST.with(|s| s.bytes.get())
}
pub fn live_blocks() -> usize {
    ST.with(|s| s.live_blocks.get())
}
pub fn live_bytes() -> usize {
    ST.with(|s| s.live_bytes.get())
}
