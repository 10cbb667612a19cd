//! What a call costs: allocations of the calling thread, counted exactly, and its CPU time.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Counting;

thread_local! {
  static ALLOCS: Cell<u64> = const { Cell::new(0) };
  static BYTES: Cell<u64> = const { Cell::new(0) };
  static LIVE: Cell<i64> = const { Cell::new(0) };
  static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn count(new: usize, old: usize) {
  let _ = ALLOCS.try_with(|c| c.set(c.get() + (new > 0) as u64));
  let _ = BYTES.try_with(|c| c.set(c.get() + new as u64));
  let _ = LIVE.try_with(|c| {
    c.set(c.get() + new as i64 - old as i64);
    let _ = PEAK.try_with(|p| p.set(p.get().max(c.get())));
  });
}

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    count(l.size(), 0);
    System.alloc(l)
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    count(l.size(), 0);
    System.alloc_zeroed(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    count(0, l.size());
    System.dealloc(p, l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    count(n, l.size());
    System.realloc(p, l, n)
  }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

#[repr(C)]
struct Timespec {
  s: i64,
  ns: i64,
}
extern "C" {
  fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

fn cpu_ns() -> u64 {
  let mut t = Timespec { s: 0, ns: 0 };
  // CLOCK_THREAD_CPUTIME_ID
  unsafe { clock_gettime(3, &mut t) };
  t.s as u64 * 1_000_000_000 + t.ns as u64
}

#[derive(Clone, Debug)]
pub struct Cost {
  pub allocs: u64,
  pub bytes: u64,
  pub peak: u64,
  /// bytes still allocated after the call and its result are gone
  pub leaked: i64,
  pub ns: u64,
}

pub fn of(f: impl FnOnce()) -> Cost {
  let (a, b, l) = (ALLOCS.get(), BYTES.get(), LIVE.get());
  PEAK.set(l);
  let t = cpu_ns();
  f();
  let ns = cpu_ns() - t;
  Cost { allocs: ALLOCS.get() - a, bytes: BYTES.get() - b, peak: (PEAK.get() - l).max(0) as u64, leaked: LIVE.get() - l, ns }
}
