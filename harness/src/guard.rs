//! A global allocator that can place allocations in their own pages, so that
//! they can be made inaccessible while the library runs, and that records or
//! refuses requests above a threshold.
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

unsafe extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}
/// Exit status of a child that requested an allocation of the watched size.
pub const ATTEMPTED: i32 = 42;
const PAGE: usize = 4096;
#[cfg(feature = "heap")]
const INNER: crate::heap::Checked = crate::heap::Checked;
#[cfg(not(feature = "heap"))]
const INNER: std::alloc::System = std::alloc::System;

pub struct Guard;
static PAGED: AtomicBool = AtomicBool::new(false);
static LAST: AtomicUsize = AtomicUsize::new(0);
static LAST_LEN: AtomicUsize = AtomicUsize::new(0);
static WATCH: AtomicUsize = AtomicUsize::new(usize::MAX);
static BIGGEST: AtomicUsize = AtomicUsize::new(0);
static REQUESTS: AtomicUsize = AtomicUsize::new(0);
const MAGIC: usize = 0x5047_4144_5f47_5544;

static EXIT_ON: AtomicUsize = AtomicUsize::new(usize::MAX);

fn note(size: usize) -> bool {
    if size >= EXIT_ON.load(SeqCst) { unsafe { _exit(ATTEMPTED) } }
    let w = WATCH.load(SeqCst);
    if w == usize::MAX { return true; }
    REQUESTS.fetch_add(1, SeqCst);
    BIGGEST.fetch_max(size, SeqCst);
    size < w
}

// Paged blocks have a header page in front holding the length and a mark;
// ordinary blocks are told apart by their address range being tracked in a
// tiny table.
const SLOTS: usize = 64;
static TABLE: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) { return std::ptr::null_mut(); }
        if PAGED.load(SeqCst) && l.size() >= PAGE && l.align() <= PAGE {
            let len = l.size().div_ceil(PAGE) * PAGE;
            unsafe {
                let p = mmap(std::ptr::null_mut(), len + 2 * PAGE, 3, 0x22, -1, 0);
                if p as isize != -1 {
                    *(p as *mut usize) = MAGIC;
                    let block = p.add(PAGE);
                    // no access past the end
                    mprotect(block.add(len), PAGE, 0);
                    for t in &TABLE {
                        if t.compare_exchange(0, block as usize, SeqCst, SeqCst).is_ok() {
                            LAST.store(block as usize, SeqCst);
                            LAST_LEN.store(len, SeqCst);
                            return block;
                        }
                    }
                    munmap(p, len + 2 * PAGE);
                }
            }
        }
        unsafe { INNER.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) { return std::ptr::null_mut(); }
        unsafe { INNER.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !note(new) { return std::ptr::null_mut(); }
        if l.size() >= PAGE && TABLE.iter().any(|t| t.load(SeqCst) == p as usize) {
            unsafe {
                let q = INNER.alloc(Layout::from_size_align_unchecked(new, l.align()));
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                    self.dealloc(p, l);
                }
                return q;
            }
        }
        unsafe { INNER.realloc(p, l, new) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() >= PAGE {
            for t in &TABLE {
                if t.compare_exchange(p as usize, 0, SeqCst, SeqCst).is_ok() {
                    let len = l.size().div_ceil(PAGE) * PAGE;
                    unsafe { munmap(p.sub(PAGE), len + 2 * PAGE) };
                    return;
                }
            }
        }
        unsafe { INNER.dealloc(p, l) }
    }
}

/// Allocations of a page or more made by `f` get their own pages.
pub fn paged<R>(f: impl FnOnce() -> R) -> R {
    PAGED.store(true, SeqCst);
    let r = f();
    PAGED.store(false, SeqCst);
    r
}

/// Runs `f` while the paged block starting at `base` is inaccessible.
pub fn sealed<R>(base: usize, f: impl FnOnce() -> R) -> Option<R> {
    if LAST.load(SeqCst) != base || base == 0 { return None; }
    let len = LAST_LEN.load(SeqCst);
    unsafe { mprotect(base as *mut u8, len, 0) };
    let r = f();
    unsafe { mprotect(base as *mut u8, len, 3) };
    Some(r)
}

/// Runs `f`, refusing (and recording) every allocation of `limit` bytes or
/// more. Returns the size of the largest request seen.
pub fn watched<R>(limit: usize, f: impl FnOnce() -> R) -> (R, usize, usize) {
    BIGGEST.store(0, SeqCst);
    REQUESTS.store(0, SeqCst);
    WATCH.store(limit, SeqCst);
    let r = f();
    WATCH.store(usize::MAX, SeqCst);
    (r, BIGGEST.load(SeqCst), REQUESTS.load(SeqCst))
}

pub fn exit(code: i32) -> ! { unsafe { _exit(code) } }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Child { Exit(i32), Signal(i32), Unable }

/// Runs `f` in a forked child that ends with its result, or with ATTEMPTED as
/// soon as an allocation of `limit` bytes or more is requested. The child may
/// use `cpu` seconds of processor time (then: signal 24, SIGXCPU).
pub fn child(limit: usize, cpu: u64, f: impl FnOnce() -> i32) -> Child {
    unsafe {
        let pid = fork();
        if pid == 0 {
            setrlimit(0, &[cpu, cpu + 1]);
            setrlimit(4, &[0, 0]);
            EXIT_ON.store(limit, SeqCst);
            let code = f();
            _exit(code)
        }
        if pid < 0 { return Child::Unable; }
        let mut status = 0;
        loop {
            if waitpid(pid, &mut status, 0) == pid { break; }
        }
        if status & 0x7f == 0 { Child::Exit(status >> 8 & 0xff) } else { Child::Signal(status & 0x7f) }
    }
}
