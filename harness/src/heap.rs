//! A checking global allocator for the ordinary builds: every block carries
//! its layout in front and a pattern behind it; new memory is filled with one
//! pattern and freed memory with another. Releasing a block with a layout
//! other than its own, releasing it twice, or writing next to it is recorded
//! and reported at the end of the case; reading memory that was never written
//! or already freed yields the pattern, which the token canaries recognise.
//! Growing or shrinking a block always moves it. Blocks are never aligned
//! better than requested.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::{Relaxed, SeqCst}};

pub struct Checked;

const HEAD: usize = 32;
const TAIL: usize = 16;
const LIVE: usize = 0x4C49_5645_B10C_0001;
const DEAD: usize = 0xDEAD_B10C_0000_0002;
const NEW: u8 = 0xA5;
const FREED: u8 = 0xDD;
const EDGE: u8 = 0xC3;
/// Blocks beyond this size are not filled (only their edges are watched).
const FILL: usize = 1 << 16;

static KIND: AtomicUsize = AtomicUsize::new(0);
static A: AtomicUsize = AtomicUsize::new(0);
static B: AtomicUsize = AtomicUsize::new(0);
static C: AtomicUsize = AtomicUsize::new(0);
static D: AtomicUsize = AtomicUsize::new(0);
static RELEASED: AtomicU64 = AtomicU64::new(0);

fn report(kind: usize, a: usize, b: usize, c: usize, d: usize) {
    if KIND.compare_exchange(0, kind, SeqCst, SeqCst).is_ok() {
        A.store(a, SeqCst);
        B.store(b, SeqCst);
        C.store(c, SeqCst);
        D.store(d, SeqCst);
    }
}

/// The first thing that went wrong since the last call.
pub fn check() -> Result<(), String> {
    let [a, b, c, d] = [&A, &B, &C, &D].map(|x| x.load(SeqCst));
    match KIND.swap(0, SeqCst) {
        0 => Ok(()),
        1 => Err(format!("heap: a block of {a} bytes aligned to {b} was released as one of {c} bytes aligned to {d}")),
        2 => Err(format!("heap: a block of {a} bytes was released twice")),
        3 => Err(format!("heap: something that is no block ({a:#x}) was released as {c} bytes aligned to {d}")),
        5 => Err(format!("heap: memory in front of a block of {a} bytes was written to")),
        _ => Err(format!("heap: memory behind a block of {a} bytes was written to ({c} bytes past its end)")),
    }
}
/// Number of blocks whose release was checked.
pub fn released() -> u64 { RELEASED.load(SeqCst) }

/// Positive controls: one misuse of each kind, contained in blocks of their
/// own, has to be reported.
pub fn selftest() -> Result<u64, String> {
    let l = Layout::from_size_align(24, 8).unwrap();
    let wrong = [Layout::from_size_align(48, 8).unwrap(), Layout::from_size_align(24, 4).unwrap()];
    let mut n = 0;
    for w in wrong {
        unsafe { let p = Checked.alloc(l); Checked.dealloc(p, w); }
        if check().is_ok() { return Err("a wrong layout went unnoticed".into()); }
        n += 1;
    }
    for at in [24, 31, -1, -8] {
        unsafe { let p = Checked.alloc(l); p.offset(at).write_volatile(1); Checked.dealloc(p, l); }
        if check().is_ok() { return Err("a write next to a block went unnoticed".into()); }
        n += 1;
    }
    unsafe { let p = Checked.alloc(l); let new = p.read_volatile(); Checked.dealloc(p, l); if new != NEW { return Err("new memory is not filled".into()); } }
    check()?;
    Ok(n + 1)
}

/// Blocks are aligned as requested and no better: their address is an odd
/// multiple of the alignment.
fn front(align: usize) -> usize { HEAD.next_multiple_of(2 * align) + align }
fn full(size: usize, align: usize) -> Option<Layout> {
    Layout::from_size_align(size.checked_add(front(align))?.checked_add(TAIL)?, align.checked_mul(2)?.max(16)).ok()
}

unsafe fn obtain(l: Layout, zeroed: bool) -> *mut u8 {
    let f = front(l.align());
    let Some(full) = full(l.size(), l.align()) else { return std::ptr::null_mut() };
    unsafe {
        let base = if zeroed { System.alloc_zeroed(full) } else { System.alloc(full) };
        if base.is_null() { return base; }
        let p = base.add(f);
        let h = p.sub(HEAD) as *mut usize;
        h.write_unaligned(l.size());
        h.add(1).write_unaligned(l.align());
        h.add(2).write_unaligned(LIVE ^ p as usize);
        (h.add(3) as *mut u8).write_bytes(EDGE, 8);
        if !zeroed && l.size() <= FILL { p.write_bytes(NEW, l.size()); }
        p.add(l.size()).write_bytes(EDGE, TAIL);
        p
    }
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { unsafe { obtain(l, false) } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { unsafe { obtain(l, true) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        unsafe {
            let q = obtain(Layout::from_size_align_unchecked(new, l.align()), false);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            q
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            let h = p.sub(HEAD) as *mut usize;
            let (size, align, mark) = (h.read_unaligned(), h.add(1).read_unaligned(), h.add(2).read_unaligned() ^ p as usize);
            if mark != LIVE {
                // the memory is left alone: it is not known to be ours
                return if mark == DEAD { report(2, size, 0, 0, 0) } else { report(3, p as usize, 0, l.size(), l.align()) };
            }
            if size != l.size() || align != l.align() { report(1, size, align, l.size(), l.align()); }
            if (p.add(size) as *const u128).read_unaligned() != u128::from_ne_bytes([EDGE; TAIL]) {
                report(4, size, 0, (0..TAIL).find(|i| p.add(size + i).read() != EDGE).unwrap_or(0), 0);
            }
            if h.add(3).read_unaligned() != usize::from_ne_bytes([EDGE; 8]) { report(5, size, 0, 0, 0); }
            RELEASED.fetch_add(1, Relaxed);
            h.add(2).write_unaligned(DEAD ^ p as usize);
            if size <= FILL { p.write_bytes(FREED, size); }
            let f = front(align);
            System.dealloc(p.sub(f), Layout::from_size_align_unchecked(size + f + TAIL, (2 * align).max(16)));
        }
    }
}
