//! A global allocator that can watch one thread: blocks freed while it watches are poisoned and kept
//! until the end, so reads through dangling pointers see poison, a second free is noticed instead of
//! performed, and blocks still live at the end are counted.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Watch;

const CAP: usize = 4096;

#[derive(Clone, Copy)]
struct Block {
    ptr: *mut u8,
    size: usize,
    align: usize,
    freed: bool,
}

struct Table {
    n: usize,
    recording: bool,
    double_free: usize,
    bad_layout: usize,
    overflow: bool,
    b: [Block; CAP],
}

thread_local! {
    static TABLE: Cell<*mut Table> = const { Cell::new(std::ptr::null_mut()) };
}

#[inline(always)]
fn table() -> *mut Table {
    TABLE.try_with(|t| t.get()).unwrap_or(std::ptr::null_mut())
}

unsafe impl GlobalAlloc for Watch {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        let t = table();
        if !t.is_null() && (*t).recording && !p.is_null() {
            record(t, p, l);
        }
        p
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let t = table();
        if t.is_null() || !release(t, p, l) {
            System.dealloc(p, l)
        }
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if table().is_null() {
            return System.realloc(p, l, n);
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

#[cold]
unsafe fn record(t: *mut Table, p: *mut u8, l: Layout) {
    let t = &mut *t;
    if t.n == CAP {
        t.overflow = true;
        return;
    }
    t.b[t.n] = Block { ptr: p, size: l.size(), align: l.align(), freed: false };
    t.n += 1;
}

/// Returns whether the block belongs to the table (and must not be freed now).
#[cold]
unsafe fn release(t: *mut Table, p: *mut u8, l: Layout) -> bool {
    let t = &mut *t;
    for b in t.b[..t.n].iter_mut().rev() {
        if b.ptr == p {
            if b.freed {
                t.double_free += 1;
                return true;
            }
            if b.size != l.size() || b.align != l.align() {
                t.bad_layout += 1;
            }
            std::ptr::write_bytes(p, 0xDD, b.size);
            b.freed = true;
            return true;
        }
    }
    false
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Report {
    pub allocated: usize,
    pub live: usize,
    pub double_free: usize,
    pub bad_layout: usize,
}

impl Report {
    pub fn clean(&self) -> bool {
        self.live == 0 && self.double_free == 0 && self.bad_layout == 0
    }
}

/// Watch the allocations `f` makes. What `f` returns must not hold blocks allocated while recording.
pub fn watch<T>(f: impl FnOnce() -> T) -> (T, Report) {
    unsafe {
        let layout = Layout::new::<Table>();
        let t = System.alloc(layout) as *mut Table;
        assert!(!t.is_null());
        (*t).n = 0;
        (*t).recording = true;
        (*t).double_free = 0;
        (*t).bad_layout = 0;
        (*t).overflow = false;
        let prev = TABLE.with(|c| c.replace(t));
        assert!(prev.is_null());
        struct End(*mut Table, Layout);
        impl Drop for End {
            fn drop(&mut self) {
                unsafe {
                    TABLE.with(|c| c.set(std::ptr::null_mut()));
                    let t = &*self.0;
                    for b in &t.b[..t.n] {
                        if b.freed {
                            System.dealloc(b.ptr, Layout::from_size_align_unchecked(b.size, b.align));
                        }
                    }
                    System.dealloc(self.0 as *mut u8, self.1);
                }
            }
        }
        let end = End(t, layout);
        let r = f();
        let tt = &*t;
        let rep = Report { allocated: tt.n, live: tt.b[..tt.n].iter().filter(|b| !b.freed).count(), double_free: tt.double_free, bad_layout: tt.bad_layout };
        let overflow = tt.overflow;
        drop(end);
        assert!(!overflow, "too many allocations in one watched execution");
        (r, rep)
    }
}

/// Run harness bookkeeping inside `watch` without recording its allocations.
pub fn quietly<T>(f: impl FnOnce() -> T) -> T {
    let t = table();
    unsafe {
        let was = if t.is_null() { false } else { std::mem::replace(&mut (*t).recording, false) };
        let r = f();
        if !t.is_null() {
            (*t).recording = was;
        }
        r
    }
}
