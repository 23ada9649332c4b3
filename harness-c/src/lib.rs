//! The C interface of the repository, on an allocator that checks that memory is released with the
//! layout it was allocated with. (The recording itself is done by driver.c.)
#[allow(dead_code, private_interfaces)]
#[path = "../../../repo/image-palette-recoloring-c/src/lib.rs"]
mod cabi;

use std::alloc::{GlobalAlloc, Layout};

extern "C" {
    fn rec_alloc(size: usize, align: usize) -> *mut u8;
    fn rec_free(ptr: *mut u8, size: usize, align: usize);
}
struct Recording;
unsafe impl GlobalAlloc for Recording {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { rec_alloc(l.size(), l.align()) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { rec_free(p, l.size(), l.align()) }
}
#[global_allocator]
static A: Recording = Recording;
