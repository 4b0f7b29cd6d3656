//! Preemption points inside the library's code.
//!
//! `build.sh` compiles the library and the simulator with a call to `__sanitizer_cov_trace_pc_guard` at every branch.
//! This crate is compiled without those calls and holds the state they look at.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

thread_local! {
    /// above 0 while harness code runs
    pub static HARNESS: Cell<u32> = const { Cell::new(0) };
    /// branches until the hook is called, 0 for never
    pub static COUNTDOWN: Cell<u64> = const { Cell::new(0) };
    /// branches taken and bytes copied by library code
    pub static BRANCHES: Cell<u64> = const { Cell::new(0) };
    pub static COPIED: Cell<u64> = const { Cell::new(0) };
    pub static HOOK: Cell<Option<fn()>> = const { Cell::new(None) };
    /// whether the hook is called at branches not taken before, and which were taken
    pub static FRESH: Cell<bool> = const { Cell::new(false) };
    static TAKEN: [Cell<u64>; 1024] = const { [const { Cell::new(0) }; 1024] };
}

/// Forget which branches this thread has taken.
pub fn forget() {
    TAKEN.with(|t| t.iter().for_each(|c| c.set(0)));
}
fn fresh(id: u32) -> bool {
    TAKEN.with(|t| {
        let c = &t[(id >> 6) as usize & 1023];
        let bit = 1u64 << (id & 63);
        let new = c.get() & bit == 0;
        c.set(c.get() | bit);
        new
    })
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let _ = COUNTDOWN.try_with(|c| {
        if HARNESS.with(|h| h.get()) != 0 {
            return;
        }
        BRANCHES.with(|b| b.set(b.get() + 1));
        if FRESH.with(|f| f.get()) && fresh(unsafe { *guard }) {
            if let Some(f) = HOOK.with(|h| h.get()) {
                f();
            }
            return;
        }
        let n = c.get();
        if n == 0 {
            return;
        }
        c.set(n - 1);
        if n == 1 {
            if let Some(f) = HOOK.with(|h| h.get()) {
                f();
            }
        }
    });
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    // numbers by place, so that one binary always counts alike
    unsafe {
        if start < stop && *start == 0 {
            let n = stop.offset_from(start) as usize;
            for i in 0..n {
                *start.add(i) = NEXT.fetch_add(1, Ordering::Relaxed);
            }
        }
    }
}
static NEXT: AtomicU32 = AtomicU32::new(1);

#[cfg(feature = "count")]
mod copies {
    use super::*;
    use std::arch::asm;

    #[inline]
    fn count(n: usize) {
        if HARNESS.with(|h| h.get()) == 0 {
            COPIED.with(|c| c.set(c.get() + n as u64));
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        count(n);
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        count(n);
        if (d as usize).wrapping_sub(s as usize) >= n {
            asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
        } else {
            asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _,
                inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
        }
        d
    }
}
