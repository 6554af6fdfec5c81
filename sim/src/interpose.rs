//! The seam: libc entry points, defined here so that std and the library bind to the simulator.
//! A call is simulated if the thread is armed or the descriptor is a simulated one; otherwise it
//! goes straight to the real kernel.
use crate::kernel::{armed, k, EnterKernel, Node, FD_BASE};
use crate::raw::{ret, set_errno, sys6};
use crate::sched;
use libc::{c_char, c_int, c_long, c_uint, c_void, iovec, mode_t, off64_t, size_t, ssize_t};
use std::ffi::CStr;

unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}

/// a scheduling point, then the simulator
fn enter() -> EnterKernel {
    sched::yield_point();
    EnterKernel::new()
}

fn vfd(fd: c_int) -> bool {
    fd >= FD_BASE
}

macro_rules! raw {
    ($n:expr) => { ret(sys6($n, 0, 0, 0, 0, 0, 0)) };
    ($n:expr, $a:expr) => { ret(sys6($n, $a as i64, 0, 0, 0, 0, 0)) };
    ($n:expr, $a:expr, $b:expr) => { ret(sys6($n, $a as i64, $b as i64, 0, 0, 0, 0)) };
    ($n:expr, $a:expr, $b:expr, $c:expr) => { ret(sys6($n, $a as i64, $b as i64, $c as i64, 0, 0, 0)) };
    ($n:expr, $a:expr, $b:expr, $c:expr, $d:expr) => { ret(sys6($n, $a as i64, $b as i64, $c as i64, $d as i64, 0, 0)) };
    ($n:expr, $a:expr, $b:expr, $c:expr, $d:expr, $e:expr) => {
        ret(sys6($n, $a as i64, $b as i64, $c as i64, $d as i64, $e as i64, 0))
    };
}

unsafe fn do_open(dir: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if armed() {
        let _g = enter();
        if dir != libc::AT_FDCWD && *p != b'/' as c_char {
            set_errno(libc::ENOSYS);
            return -1;
        }
        return ret(k().open(bytes(p), flags, mode)) as c_int;
    }
    raw!(libc::SYS_openat, dir, p, flags, mode) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(p: *const c_char, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(p: *const c_char, mode: mode_t) -> c_int {
    creat(p, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if vfd(fd) {
        let _g = enter();
        return ret(k().close(fd)) as c_int;
    }
    raw!(libc::SYS_close, fd) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if vfd(fd) {
        let _g = enter();
        return ret(k().read(fd, std::slice::from_raw_parts_mut(b as *mut u8, n), None)) as ssize_t;
    }
    if armed() && fd == 0 {
        return 0;
    }
    raw!(libc::SYS_read, fd, b, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if vfd(fd) {
        let _g = enter();
        return ret(k().write(fd, std::slice::from_raw_parts(b as *const u8, n), None)) as ssize_t;
    }
    if armed() {
        let _g = enter();
        return ret(k().stdio(fd, std::slice::from_raw_parts(b as *const u8, n))) as ssize_t;
    }
    raw!(libc::SYS_write, fd, b, n) as ssize_t
}
unsafe fn first_iov(v: *const iovec, n: c_int) -> (*mut c_void, usize) {
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.iov_len > 0 {
            return (x.iov_base, x.iov_len);
        }
    }
    (std::ptr::NonNull::dangling().as_ptr(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if vfd(fd) || armed() {
        let (b, l) = first_iov(v, n);
        return read(fd, b, l);
    }
    raw!(libc::SYS_readv, fd, v, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if vfd(fd) || armed() {
        let (b, l) = first_iov(v, n);
        return write(fd, b, l);
    }
    raw!(libc::SYS_writev, fd, v, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if vfd(fd) {
        let _g = enter();
        return ret(k().read(fd, std::slice::from_raw_parts_mut(b as *mut u8, n), Some(off as u64))) as ssize_t;
    }
    raw!(libc::SYS_pread64, fd, b, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    pread64(fd, b, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if vfd(fd) {
        let _g = enter();
        return ret(k().write(fd, std::slice::from_raw_parts(b as *const u8, n), Some(off as u64))) as ssize_t;
    }
    raw!(libc::SYS_pwrite64, fd, b, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    pwrite64(fd, b, n, off)
}

unsafe fn fill_stat(r: Result<(usize, u32, u64, u64), i64>, st: *mut libc::stat64) -> c_int {
    match r {
        Ok((ino, mode, size, t)) => {
            std::ptr::write_bytes(st, 0, 1);
            let st = &mut *st;
            st.st_ino = ino as u64 + 1;
            st.st_dev = 77;
            st.st_nlink = 1;
            st.st_mode = mode;
            st.st_size = size as i64;
            st.st_blksize = 4096;
            st.st_blocks = (size as i64 + 511) / 512;
            st.st_mtime = (t / 1_000_000_000) as i64;
            st.st_mtime_nsec = (t % 1_000_000_000) as i64;
            0
        }
        Err(e) => ret(e) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if vfd(fd) {
        let _g = enter();
        return fill_stat(k().stat(Err(fd), true), st);
    }
    raw!(libc::SYS_fstat, fd, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if armed() {
        let _g = enter();
        return fill_stat(k().stat(Ok(bytes(p)), true), st);
    }
    raw!(libc::SYS_stat, p, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    stat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if armed() {
        let _g = enter();
        return fill_stat(k().stat(Ok(bytes(p)), false), st);
    }
    raw!(libc::SYS_lstat, p, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    lstat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut libc::stat64, fl: c_int) -> c_int {
    if armed() {
        let _g = enter();
        if *p == 0 && vfd(d) {
            return fill_stat(k().stat(Err(d), true), st);
        }
        return fill_stat(k().stat(Ok(bytes(p)), fl & libc::AT_SYMLINK_NOFOLLOW == 0), st);
    }
    raw!(libc::SYS_newfstatat, d, p, st, fl) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, st: *mut libc::statx) -> c_int {
    if vfd(d) || armed() {
        if p.is_null() {
            set_errno(libc::EFAULT);
            return -1;
        }
        let _g = enter();
        let r = if *p == 0 && vfd(d) {
            k().stat(Err(d), true)
        } else {
            k().stat(Ok(bytes(p)), fl & libc::AT_SYMLINK_NOFOLLOW == 0)
        };
        return match r {
            Ok((ino, mode, size, t)) => {
                std::ptr::write_bytes(st, 0, 1);
                let st = &mut *st;
                st.stx_mask = libc::STATX_BASIC_STATS;
                st.stx_blksize = 4096;
                st.stx_nlink = 1;
                st.stx_mode = mode as u16;
                st.stx_ino = ino as u64 + 1;
                st.stx_size = size;
                st.stx_blocks = (size + 511) / 512;
                st.stx_dev_major = 7;
                st.stx_dev_minor = 7;
                st.stx_mtime.tv_sec = (t / 1_000_000_000) as i64;
                st.stx_mtime.tv_nsec = (t % 1_000_000_000) as u32;
                0
            }
            Err(e) => ret(e) as c_int,
        };
    }
    raw!(libc::SYS_statx, d, p, fl, mask, st) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, w: c_int) -> off64_t {
    if vfd(fd) {
        let _g = enter();
        return ret(k().lseek(fd, off, w));
    }
    raw!(libc::SYS_lseek, fd, off, w)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, w: c_int) -> off64_t {
    lseek64(fd, off, w)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if vfd(fd) {
        let _g = enter();
        return ret(k().ftruncate(fd, len)) as c_int;
    }
    raw!(libc::SYS_ftruncate, fd, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, len: off64_t) -> c_int {
    if armed() {
        let _g = enter();
        let kn = k();
        kn.step();
        return match kn.lookup(bytes(p), true) {
            Ok((pp, i)) => ret(kn.truncate(i, &pp, len)) as c_int,
            Err(e) => ret(-(e as i64)) as c_int,
        };
    }
    raw!(libc::SYS_truncate, p, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate(p: *const c_char, len: off64_t) -> c_int {
    truncate64(p, len)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if vfd(fd) {
        let _g = enter();
        return ret(k().fsync(fd)) as c_int;
    }
    raw!(libc::SYS_fsync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if vfd(fd) {
        let _g = enter();
        return ret(k().fsync(fd)) as c_int;
    }
    raw!(libc::SYS_fdatasync, fd) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if armed() {
        let _g = enter();
        return ret(k().rename(bytes(a), bytes(b), false)) as c_int;
    }
    raw!(libc::SYS_rename, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat(da: c_int, a: *const c_char, db: c_int, b: *const c_char) -> c_int {
    if armed() {
        return rename(a, b);
    }
    raw!(libc::SYS_renameat, da, a, db, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(da: c_int, a: *const c_char, db: c_int, b: *const c_char, fl: c_uint) -> c_int {
    if armed() {
        let _g = enter();
        return ret(k().rename(bytes(a), bytes(b), fl & libc::RENAME_NOREPLACE != 0)) as c_int;
    }
    raw!(libc::SYS_renameat2, da, a, db, b, fl) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if armed() {
        let _g = enter();
        return ret(k().unlink(bytes(p), false)) as c_int;
    }
    raw!(libc::SYS_unlink, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    if armed() {
        let _g = enter();
        return ret(k().unlink(bytes(p), fl & libc::AT_REMOVEDIR != 0)) as c_int;
    }
    raw!(libc::SYS_unlinkat, d, p, fl) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if armed() {
        let _g = enter();
        return ret(k().unlink(bytes(p), true)) as c_int;
    }
    raw!(libc::SYS_rmdir, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    if armed() {
        let _g = enter();
        return ret(k().mknode(bytes(p), Node::Dir, "mkdir")) as c_int;
    }
    raw!(libc::SYS_mkdir, p, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(t: *const c_char, p: *const c_char) -> c_int {
    if armed() {
        let _g = enter();
        return ret(k().mknode(bytes(p), Node::Symlink(bytes(t).to_vec()), "symlink")) as c_int;
    }
    raw!(libc::SYS_symlink, t, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if armed() {
        let _g = enter();
        return ret(k().link(bytes(a), bytes(b))) as c_int;
    }
    raw!(libc::SYS_link, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(da: c_int, a: *const c_char, db: c_int, b: *const c_char, fl: c_int) -> c_int {
    if armed() {
        return link(a, b);
    }
    raw!(libc::SYS_linkat, da, a, db, b, fl) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if armed() {
        let _g = enter();
        return match k().readlink(bytes(p)) {
            Ok(t) => {
                let m = t.len().min(n);
                std::ptr::copy_nonoverlapping(t.as_ptr(), b as *mut u8, m);
                m as ssize_t
            }
            Err(e) => ret(e) as ssize_t,
        };
    }
    raw!(libc::SYS_readlink, p, b, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if armed() {
        let _g = enter();
        return match k().realpath(bytes(p)) {
            Ok(mut t) => {
                t.push(0);
                let o = if out.is_null() { libc::malloc(t.len()) as *mut c_char } else { out };
                std::ptr::copy_nonoverlapping(t.as_ptr(), o as *mut u8, t.len());
                o
            }
            Err(e) => {
                ret(e);
                std::ptr::null_mut()
            }
        };
    }
    // the harness itself does not need links resolved
    let b = bytes(p);
    let o = if out.is_null() { libc::malloc(b.len() + 1) as *mut c_char } else { out };
    std::ptr::copy_nonoverlapping(p, o, b.len() + 1);
    o
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if armed() {
        let _g = enter();
        return match k().stat(Ok(bytes(p)), true) {
            Ok(_) => 0,
            Err(e) => ret(e) as c_int,
        };
    }
    raw!(libc::SYS_access, p, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, fl: c_int) -> c_int {
    if armed() {
        return access(p, m);
    }
    raw!(libc::SYS_faccessat2, d, p, m, fl) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    if armed() {
        let _g = enter();
        let kn = k();
        kn.step();
        return match kn.lookup(bytes(p), true) {
            Ok((_, i)) => {
                kn.inodes[i].mode = m & 0o7777;
                0
            }
            Err(e) => ret(-(e as i64)) as c_int,
        };
    }
    raw!(libc::SYS_chmod, p, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if vfd(fd) {
        let _g = enter();
        let kn = k();
        kn.step();
        if let Some(o) = kn.fds.get(&fd) {
            let i = kn.ofds[*o].ino;
            kn.inodes[i].mode = m & 0o7777;
            return 0;
        }
        return ret(-(libc::EBADF as i64)) as c_int;
    }
    raw!(libc::SYS_fchmod, fd, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchown(fd: c_int, u: c_uint, g: c_uint) -> c_int {
    if vfd(fd) {
        return 0;
    }
    raw!(libc::SYS_fchown, fd, u, g) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int {
    if vfd(fd) {
        return 0;
    }
    raw!(libc::SYS_utimensat, fd, 0, t, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if armed() {
        let d = &k().cwd;
        if n < d.len() + 1 || b.is_null() {
            set_errno(libc::ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(d.as_ptr(), b as *mut u8, d.len());
        *b.add(d.len()) = 0;
        return b;
    }
    let r = raw!(libc::SYS_getcwd, b, n);
    if r < 0 {
        std::ptr::null_mut()
    } else {
        b
    }
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if armed() {
        let _g = enter();
        return ret(k().chdir(std::ffi::CStr::from_ptr(p).to_bytes())) as c_int;
    }
    raw!(libc::SYS_chdir, p) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if vfd(fd) {
        let _g = enter();
        return match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => ret(k().dup(fd)) as c_int,
            _ => 0,
        };
    }
    raw!(libc::SYS_fcntl, fd, cmd, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if vfd(fd) {
        let _g = enter();
        return ret(k().dup(fd)) as c_int;
    }
    raw!(libc::SYS_dup, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_long, arg: c_long) -> c_int {
    if vfd(fd) || armed() {
        set_errno(libc::ENOTTY);
        return -1;
    }
    raw!(libc::SYS_ioctl, fd, req, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if vfd(fd) || armed() {
        set_errno(libc::ENOTTY);
        return 0;
    }
    let mut t = [0u8; 128];
    (raw!(libc::SYS_ioctl, fd, libc::TCGETS, t.as_mut_ptr()) == 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if vfd(fd) {
        return 0;
    }
    raw!(libc::SYS_flock, fd, op) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, _a: off64_t, _b: off64_t, _c: c_int) -> c_int {
    let _ = fd;
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise(fd: c_int, a: off64_t, b: off64_t, c: c_int) -> c_int {
    posix_fadvise64(fd, a, b, c)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, off: off64_t, len: off64_t) -> c_int {
    if vfd(fd) {
        return libc::EOPNOTSUPP;
    }
    -(sys6(libc::SYS_fallocate, fd as i64, 0, off, len, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: c_int, oa: *mut off64_t, b: c_int, ob: *mut off64_t, n: size_t, fl: c_uint,
) -> ssize_t {
    if vfd(a) || vfd(b) || armed() {
        set_errno(libc::ENOSYS);
        return -1;
    }
    ret(sys6(libc::SYS_copy_file_range, a as i64, oa as i64, b as i64, ob as i64, n as i64, fl as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if vfd(o) || vfd(i) || armed() {
        set_errno(libc::ENOSYS);
        return -1;
    }
    raw!(libc::SYS_sendfile, o, i, off, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    sendfile64(o, i, off, n)
}
#[no_mangle]
pub unsafe extern "C" fn splice(
    a: c_int, oa: *mut off64_t, b: c_int, ob: *mut off64_t, n: size_t, fl: c_uint,
) -> ssize_t {
    if vfd(a) || vfd(b) || armed() {
        set_errno(libc::EINVAL);
        return -1;
    }
    ret(sys6(libc::SYS_splice, a as i64, oa as i64, b as i64, ob as i64, n as i64, fl as i64)) as ssize_t
}

// ---- directories: a DIR of the simulator is a boxed list

#[repr(C)]
pub struct SimDir {
    list: Vec<(Vec<u8>, u8)>,
    pos: usize,
    ent: libc::dirent64,
    magic: u64,
}
const DIR_MAGIC: u64 = 0x51d0_51d0_51d0_51d0;

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    if !armed() {
        // the harness does not list real directories
        set_errno(libc::ENOSYS);
        return std::ptr::null_mut();
    }
    let _g = enter();
    match k().list(bytes(p)) {
        Ok(list) => {
            Box::into_raw(Box::new(SimDir { list, pos: 0, ent: std::mem::zeroed(), magic: DIR_MAGIC })) as *mut c_void
        }
        Err(e) => {
            ret(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    let d = &mut *(d as *mut SimDir);
    assert!(d.magic == DIR_MAGIC);
    if d.pos >= d.list.len() {
        return std::ptr::null_mut();
    }
    let (ref n, t) = d.list[d.pos];
    d.pos += 1;
    d.ent.d_ino = d.pos as u64;
    d.ent.d_type = t;
    d.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
    for (i, c) in n.iter().enumerate() {
        d.ent.d_name[i] = *c as c_char;
    }
    d.ent.d_name[n.len()] = 0;
    &mut d.ent
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    drop(Box::from_raw(d as *mut SimDir));
    0
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(_fd: c_int) -> *mut c_void {
    set_errno(libc::ENOSYS);
    std::ptr::null_mut()
}

// ---- time, randomness, sleeping, futexes

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if armed() {
        let _g = enter();
        let kn = k();
        kn.step();
        (*ts).tv_sec = (kn.clock_ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (kn.clock_ns % 1_000_000_000) as i64;
        return 0;
    }
    raw!(libc::SYS_clock_gettime, c, ts) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    if armed() {
        let _g = EnterKernel::new();
        let s = std::slice::from_raw_parts_mut(b as *mut u8, n);
        for x in s.iter_mut() {
            *x = k().next_entropy() as u8;
        }
        return n as ssize_t;
    }
    raw!(libc::SYS_getrandom, b, n, fl) as ssize_t
}
unsafe fn sim_sleep(req: *const libc::timespec) {
    {
        let _g = EnterKernel::new();
        let kn = k();
        kn.step();
        kn.clock_ns += (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    }
    sched::yield_point();
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if armed() {
        sim_sleep(req);
        return 0;
    }
    raw!(libc::SYS_nanosleep, req, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    c: libc::clockid_t, fl: c_int, req: *const libc::timespec, rem: *mut libc::timespec,
) -> c_int {
    if armed() {
        if fl == 0 {
            sim_sleep(req);
        }
        return 0;
    }
    -(sys6(libc::SYS_clock_nanosleep, c as i64, fl as i64, req as i64, rem as i64, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if armed() {
        sched::yield_point();
        return 0;
    }
    raw!(libc::SYS_sched_yield) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if armed() {
        match n {
            libc::SYS_futex => {
                let op = b as i32 & 0x7f;
                return ret(sched::futex(a as *const u32, op, c as u32, d as *const libc::timespec));
            }
            libc::SYS_getrandom => return getrandom(a as *mut c_void, b as usize, c as u32) as c_long,
            libc::SYS_gettid => return 1000 + crate::kernel::TID.with(|t| t.get()) as c_long,
            libc::SYS_copy_file_range => {
                set_errno(libc::ENOSYS);
                return -1;
            }
            libc::SYS_statx => {
                return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long
            }
            _ => (),
        }
    }
    ret(sys6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if armed() {
        crate::run::exits(code)
    }
    crate::raw::exit_group(code)
}

// ---- arguments: std keeps the addresses it is given at the start of the process

static ARGV: std::sync::atomic::AtomicPtr<*const c_char> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
static ARGC: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

extern "C" fn at_start(argc: c_int, argv: *mut *const c_char, _env: *const *const c_char) {
    ARGV.store(argv, std::sync::atomic::Ordering::SeqCst);
    ARGC.store(argc as usize, std::sync::atomic::Ordering::SeqCst);
}
#[used]
#[link_section = ".init_array"]
static AT_START: extern "C" fn(c_int, *mut *const c_char, *const *const c_char) = at_start;

/// from now on the process was started with these arguments
#[cfg_attr(not(feature = "tools"), allow(dead_code))]
pub fn set_args(args: &[&[u8]]) {
    let v = ARGV.load(std::sync::atomic::Ordering::SeqCst);
    assert!(!v.is_null() && args.len() <= ARGC.load(std::sync::atomic::Ordering::SeqCst));
    for (i, a) in args.iter().enumerate() {
        let c = std::ffi::CString::new(*a).unwrap();
        unsafe { *v.add(i) = c.into_raw() }
    }
    unsafe { *v.add(args.len()) = std::ptr::null() }
}
