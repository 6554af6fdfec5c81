//! Allocations and frees of armed threads are scheduling points and are limited in total.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct A;
static LIVE: AtomicU64 = AtomicU64::new(0);
const LIMIT: u64 = 2 << 30;

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sched::alloc_point();
        if LIVE.fetch_add(l.size() as u64, Ordering::Relaxed) > LIMIT || l.size() as u64 > LIMIT {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        crate::sched::alloc_point();
        LIVE.fetch_sub(l.size() as u64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        crate::sched::alloc_point();
        if LIVE.fetch_add(l.size() as u64, Ordering::Relaxed) > LIMIT || l.size() as u64 > LIMIT {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        crate::sched::alloc_point();
        if LIVE.fetch_add((n as u64).wrapping_sub(l.size() as u64), Ordering::Relaxed) > LIMIT && n > l.size() {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
