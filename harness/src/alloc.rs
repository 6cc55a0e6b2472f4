//! Global allocator that counts calls per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
	static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn bump() {
	let _ = CALLS.try_with(|c| c.set(c.get() + 1));
}

unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		bump();
		unsafe { System.alloc(l) }
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		bump();
		unsafe { System.dealloc(p, l) }
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		bump();
		unsafe { System.alloc_zeroed(l) }
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		bump();
		unsafe { System.realloc(p, l, n) }
	}
}

/// Allocator calls made by this thread so far.
pub fn calls() -> u64 {
	CALLS.with(|c| c.get())
}
