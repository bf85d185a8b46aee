//! Counting allocator: observes memory and allocation calls of the code under test.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
	static CALLS: Cell<u64> = const { Cell::new(0) };
	static BYTES: Cell<u64> = const { Cell::new(0) };
	static LIVE: Cell<i64> = const { Cell::new(0) };
	static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn add(n: usize) {
	let _ = CALLS.try_with(|c| c.set(c.get() + 1));
	let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
	let _ = LIVE.try_with(|c| {
		let v = c.get() + n as i64;
		c.set(v);
		let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
	});
}
fn sub(n: usize) {
	let _ = LIVE.try_with(|c| c.set(c.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		add(l.size());
		System.alloc(l)
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		add(l.size());
		System.alloc_zeroed(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		sub(l.size());
		System.dealloc(p, l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		// counted as the growth, as a growing buffer is the usual case
		sub(l.size());
		add(n);
		System.realloc(p, l, n)
	}
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Mem {
	pub calls: u64,
	pub bytes: u64,
	pub live: i64,
	pub peak: i64,
}
/// statistics of this thread since the last reset of the peak
pub fn now() -> Mem {
	Mem { calls: CALLS.with(|c| c.get()), bytes: BYTES.with(|c| c.get()), live: LIVE.with(|c| c.get()), peak: PEAK.with(|c| c.get()) }
}
pub fn reset_peak() {
	PEAK.with(|p| p.set(LIVE.with(|c| c.get())));
}
/// runs f and reports what it allocated (peak relative to the start)
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Mem) {
	let a = now();
	reset_peak();
	let r = f();
	let b = now();
	(r, Mem { calls: b.calls - a.calls, bytes: b.bytes - a.bytes, live: b.live - a.live, peak: b.peak - a.live })
}
