//! Counting global allocator

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}

/// Live bytes a single thread may hold; beyond, the process is ended so that
/// runaway allocation does not take the machine down
const LIMIT: i64 = 3 << 30;

fn add(n: usize) {
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
    let _ = BLOCKS.try_with(|c| c.set(c.get() + 1));
    let _ = LIVE.try_with(|c| {
        c.set(c.get() + n as i64);
        if c.get() > LIMIT {
            c.set(0);
            eprintln!("fv: a single case holds more than {} bytes", LIMIT);
            std::process::abort();
        }
    });
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|c| c.set(c.get() - n as i64));
    let _ = BLOCKS.try_with(|c| c.set(c.get() - 1));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sub(l.size());
        add(n);
        System.realloc(p, l, n)
    }
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Snap {
    /// Allocations and reallocations so far
    pub count: u64,
    /// Bytes requested so far
    pub bytes: u64,
    /// Bytes currently held
    pub live: i64,
    /// Blocks currently held
    pub blocks: i64,
}

/// Counters of the current thread
pub fn snap() -> Snap {
    Snap {
        count: COUNT.with(|c| c.get()),
        bytes: BYTES.with(|c| c.get()),
        live: LIVE.with(|c| c.get()),
        blocks: BLOCKS.with(|c| c.get()),
    }
}
