//! Raw system calls: the only way the simulator reaches the real kernel.
use std::arch::asm;

pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

/// the libc convention: -1 and errno
pub fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub fn futex_wait(w: &std::sync::atomic::AtomicU32, val: u32) {
    unsafe {
        sys6(libc::SYS_futex, w as *const _ as i64, libc::FUTEX_WAIT as i64, val as i64, 0, 0, 0);
    }
}

pub fn futex_wake(w: &std::sync::atomic::AtomicU32) {
    unsafe {
        sys6(libc::SYS_futex, w as *const _ as i64, libc::FUTEX_WAKE as i64, i32::MAX as i64, 0, 0, 0);
    }
}

pub fn exit_group(code: i32) -> ! {
    unsafe {
        sys6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { sys6(libc::SYS_write, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if n <= 0 {
            if n == -(libc::EINTR as i64) {
                continue;
            }
            return;
        }
        b = &b[n as usize..];
    }
}
