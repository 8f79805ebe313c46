//! Common parts: a tracking, poisoning allocator and the case protocol.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::io::{BufRead, Write};

pub use serde_json::{json, Value};

const MAX: usize = 4096;
/// Bytes after each tracked block that must stay untouched.
const ZONE: usize = 256;

#[derive(Clone, Copy)]
pub struct Block {
    pub address: usize,
    pub size: usize,
    pub align: usize,
    pub frees: u32,
}

struct Table {
    blocks: UnsafeCell<[Block; MAX]>,
    len: UnsafeCell<usize>,
    lock: std::sync::atomic::AtomicBool,
    bad_frees: UnsafeCell<usize>,
}
unsafe impl Sync for Table {}

static TABLE: Table = Table {
    blocks: UnsafeCell::new([Block { address: 0, size: 0, align: 1, frees: 0 }; MAX]),
    len: UnsafeCell::new(0),
    lock: std::sync::atomic::AtomicBool::new(false),
    bad_frees: UnsafeCell::new(0),
};

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
}

pub static ON_FREE: std::sync::atomic::AtomicPtr<()> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

fn locked<T>(f: impl FnOnce(&mut [Block; MAX], &mut usize) -> T) -> T {
    use std::sync::atomic::Ordering::*;
    while TABLE.lock.compare_exchange(false, true, Acquire, Relaxed).is_err() {
        std::thread::yield_now();
    }
    let r = f(unsafe { &mut *TABLE.blocks.get() }, unsafe { &mut *TABLE.len.get() });
    TABLE.lock.store(false, Release);
    r
}

/// Blocks allocated while tracking is on are recorded; freeing them poisons the memory and keeps it (quarantine)
/// until `reset`, so that double frees and uses after free are observed instead of corrupting the process.
pub struct Tracking;

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let track = TRACK.try_with(|t| t.get()).unwrap_or(false);
        let p = if track {
            let p = System.alloc(Layout::from_size_align_unchecked(layout.size() + ZONE, layout.align()));
            std::ptr::write_bytes(p.add(layout.size()), 0xfb, ZONE);
            p
        } else {
            System.alloc(layout)
        };
        if track {
            locked(|blocks, len| {
                if *len < MAX {
                    blocks[*len] = Block { address: p as usize, size: layout.size(), align: layout.align(), frees: 0 };
                    *len += 1;
                }
            });
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let found = locked(|blocks, len| {
            for b in blocks[..*len].iter_mut().rev() {
                if b.address == p as usize {
                    b.frees += 1;
                    if b.frees == 1 {
                        std::ptr::write_bytes(p, 0xdd, b.size);
                    }
                    return true;
                }
            }
            false
        });
        if found {
            let f = ON_FREE.load(std::sync::atomic::Ordering::SeqCst);
            if !f.is_null() {
                (std::mem::transmute::<*mut (), fn(usize)>(f))(p as usize);
            }
        } else {
            System.dealloc(p, layout)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let old = locked(|blocks, len| blocks[..*len].iter().rev().find(|b| b.address == p as usize).map(|b| b.size));
        match old {
            None => System.realloc(p, layout, new_size),
            Some(size) => {
                // The caller's layout is not trusted for copying more than was allocated, but a wrong (smaller)
                // one loses data just as a real allocator may.
                let q = self.alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
                std::ptr::copy_nonoverlapping(p, q, size.min(new_size));
                self.dealloc(p, layout);
                q
            }
        }
    }
}

#[global_allocator]
static GLOBAL: Tracking = Tracking;

pub fn tracked<T>(f: impl FnOnce() -> T) -> T {
    let old = TRACK.with(|t| t.replace(true));
    let r = f();
    TRACK.with(|t| t.set(old));
    r
}

pub fn untracked<T>(f: impl FnOnce() -> T) -> T {
    let old = TRACK.with(|t| t.replace(false));
    let r = f();
    TRACK.with(|t| t.set(old));
    r
}

/// Index of the next block to be recorded.
pub fn mark() -> usize {
    locked(|_, len| *len)
}

pub fn blocks(from: usize, to: usize) -> Vec<Block> {
    let mut out = Vec::with_capacity(to - from + 1);
    locked(|b, len| {
        for x in &b[from..to.min(*len)] {
            out.push(*x);
        }
    });
    out
}

/// Numbers of blocks freed never and more than once.
pub fn leaks() -> (usize, usize) {
    locked(|b, len| {
        (
            b[..*len].iter().filter(|b| b.frees == 0).count(),
            b[..*len].iter().filter(|b| b.frees > 1).count(),
        )
    })
}

/// Number of blocks with writes behind their end.
pub fn overruns() -> usize {
    locked(|b, len| {
        b[..*len].iter().filter(|b| (0..ZONE).any(|i| unsafe { *((b.address + b.size + i) as *const u8) } != 0xfb)).count()
    })
}

/// Ends a case: releases the quarantine.
pub fn reset() {
    let mut list = Vec::with_capacity(MAX);
    locked(|b, len| {
        for x in &b[..*len] {
            list.push(*x);
        }
        *len = 0;
    });
    for b in list {
        // A block that is still in use may be referenced by leaked values: keep it.
        if b.frees > 0 {
            unsafe { System.dealloc(b.address as *mut u8, Layout::from_size_align(b.size + ZONE, b.align).unwrap()) }
        }
    }
    unsafe { *TABLE.bad_frees.get() = 0 };
}

/// Reads cases from standard input and answers one line for each.
pub fn serve(mut f: impl FnMut(&Value) -> Value) {
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let case: Value = serde_json::from_str(&line).unwrap();
        let answer = f(&case);
        let mut out = stdout.lock();
        out.write_all(serde_json::to_string(&answer).unwrap().as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}

/// Runs a closure, turning a panic into an error message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
