//! An allocator that moves on every realloc and scribbles over freed memory, so that a reference taken before an
//! element reaches its final place is caught.
use std::alloc::{GlobalAlloc, Layout, System};
pub struct Moving;
unsafe impl GlobalAlloc for Moving {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let n = l.size().min(1 << 16);
        std::ptr::write_bytes(p, 0xa5, n);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = System.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
