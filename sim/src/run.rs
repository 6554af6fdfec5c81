//! Execution of one run in a forked process, simulated program lives, results.
use crate::choice::{mix, Choices};
use crate::kernel::{self, k, Crash, Inode, Kernel, Node, ARMED};
use crate::raw;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU32, Ordering};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Viol>;

pub fn viol<T>(class: &str, msg: String) -> R<T> {
    Err(Viol { class: class.to_string(), msg })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($arg:tt)*) => {
        if !$c { return $crate::run::viol($class, format!($($arg)*)); }
    };
}

const CHOICES: usize = 1 << 20;
const RES: usize = 16 << 20;
const LIFE: usize = 32 << 20;
static SHM: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static NESTED: AtomicBool = AtomicBool::new(false);
pub static CUR_INDEX: AtomicU32 = AtomicU32::new(0);

fn shm() -> *mut u8 {
    SHM.load(Ordering::SeqCst)
}
fn off_res() -> usize {
    64 + CHOICES * 4
}
fn off_life() -> usize {
    off_res() + RES
}

/// every process that executes runs calls this once
pub fn init_process() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            off_life() + LIFE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHM.store(p as *mut u8, Ordering::SeqCst);
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("'{}' at {}", msg, loc));
        if !ARMED.with(|a| a.get()) {
            raw::write_all(2, format!("harness panic: {} at {}\n", msg, loc).as_bytes());
        }
    }));
}

/// set for programs that install a logger of their own
pub static OWN_LOGGER: AtomicBool = AtomicBool::new(false);

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// a call whose panic is an outcome: armed, panics caught
pub fn try_op<T>(name: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    k().event(&format!("op {}", name));
    k().count("ops");
    ARMED.with(|a| a.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    let _ = catch_unwind(|| std::io::stdout().flush());
    ARMED.with(|a| a.set(false));
    r.map_err(|e| {
        drop(e);
        PANIC.with(|p| p.borrow().clone())
    })
}
/// a library call: it must not panic
pub fn op<T>(name: &str, f: impl FnOnce() -> T) -> R<T> {
    match try_op(name, f) {
        Ok(v) => Ok(v),
        Err(m) => viol("panic", format!("{} panicked: {}", name, m)),
    }
}

/// the end of a run
pub fn finish(r: R) -> ! {
    let kn = k();
    let mut s = String::new();
    match r {
        Ok(()) => s.push_str("ok\n\n\n"),
        Err(ref v) => s.push_str(&format!("viol\n{}\n{}\n", esc(&v.class), esc(&v.msg))),
    }
    s.push_str(&format!("{:016x}\n{}\n{}\n{}\n", kn.hash, kn.steps, kn.clock_ns - 1_600_000_000_000_000_000, kn.nontrivial as u8));
    s.push_str(&format!("{}\n", kn.stats.len()));
    for (n, v) in &kn.stats {
        s.push_str(&format!("{} {}\n", n, v));
    }
    s.push_str(&kn.log);
    let b = s.as_bytes();
    let n = b.len().min(RES - 8);
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), shm().add(off_res()), n);
        *(shm().add(8) as *mut u64) = n as u64;
    }
    raw::exit_group(if NESTED.load(Ordering::SeqCst) { 42 } else { 0 })
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => (),
            }
        } else {
            o.push(c)
        }
    }
    o
}

// ---- program lives: a forked process that may crash; its stored files survive

struct W(Vec<u8>);
impl W {
    fn u(&mut self, x: u64) {
        self.0.extend_from_slice(&x.to_le_bytes())
    }
    fn b(&mut self, x: &[u8]) {
        self.u(x.len() as u64);
        self.0.extend_from_slice(x)
    }
}
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn u(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    fn b(&mut self) -> Vec<u8> {
        let n = self.u() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a.to_vec()
    }
}

fn export(out: &[u8]) {
    let kn = k();
    let mut w = W(vec![]);
    w.b(out);
    w.u(kn.inodes.len() as u64);
    for i in &kn.inodes {
        match i.node {
            Node::File(ref d) => {
                w.u(0);
                w.b(d)
            }
            Node::Dir => {
                w.u(1);
                w.b(b"")
            }
            Node::Symlink(ref d) => {
                w.u(2);
                w.b(d)
            }
        }
        w.u(i.dirty as u64);
        w.u(i.mode as u64);
        w.u(i.mtime);
    }
    w.u(kn.names.len() as u64);
    for (n, i) in &kn.names {
        w.b(n);
        w.u(*i as u64);
    }
    w.u(kn.stats.len() as u64);
    for (n, i) in &kn.stats {
        w.b(n.as_bytes());
        w.u(*i);
    }
    for x in [kn.clock_ns, kn.entropy, kn.steps, kn.soft_fired, kn.hard_fired, kn.hash, kn.nontrivial as u64, kn.ch.rng_state(), kn.next_fd as u64] {
        w.u(x)
    }
    w.b(kn.log.as_bytes());
    assert!(w.0.len() + 8 < LIFE);
    unsafe {
        *(shm().add(off_life()) as *mut u64) = w.0.len() as u64;
        std::ptr::copy_nonoverlapping(w.0.as_ptr(), shm().add(off_life() + 8), w.0.len());
    }
}

fn import() -> Vec<u8> {
    let n = unsafe { *(shm().add(off_life()) as *const u64) } as usize;
    let s = unsafe { std::slice::from_raw_parts(shm().add(off_life() + 8), n) };
    let mut r = Rd(s);
    let out = r.b();
    let kn = k();
    kn.inodes.clear();
    for _ in 0..r.u() {
        let t = r.u();
        let d = r.b();
        let node = match t {
            0 => Node::File(d),
            1 => Node::Dir,
            _ => Node::Symlink(d),
        };
        let (dirty, mode, mtime) = (r.u() == 1, r.u() as u32, r.u());
        kn.inodes.push(Inode { node, dirty, mode, mtime });
    }
    kn.names.clear();
    for _ in 0..r.u() {
        let n = r.b();
        let i = r.u() as usize;
        kn.names.insert(n, i);
    }
    kn.stats.clear();
    for _ in 0..r.u() {
        let n = String::from_utf8(r.b()).unwrap();
        let i = r.u();
        kn.stats.insert(n, i);
    }
    kn.clock_ns = r.u();
    kn.entropy = r.u();
    kn.steps = r.u();
    kn.soft_fired = r.u();
    kn.hard_fired = r.u();
    kn.hash = r.u();
    kn.nontrivial = r.u() == 1;
    kn.ch.set_rng_state(r.u());
    kn.next_fd = r.u() as i32;
    kn.log = String::from_utf8(r.b()).unwrap();
    out
}

/// the simulated process is gone
pub fn crashed() -> ! {
    if !NESTED.load(Ordering::SeqCst) {
        finish(viol("harness", "crash outside of a life".into()))
    }
    export(&[]);
    raw::exit_group(41)
}

/// the program ends its life by itself
pub fn exits(code: i32) -> ! {
    ARMED.with(|a| a.set(false));
    if !NESTED.load(Ordering::SeqCst) {
        finish(viol("exit", format!("exit({}) was called", code)))
    }
    let out = EXIT.with(|e| e.borrow_mut().take().map(|f| f(code)));
    match out {
        Some(out) => {
            export(&out);
            raw::exit_group(40)
        }
        None => finish(viol("exit", format!("exit({}) was called", code))),
    }
}
thread_local! {
    /// what a life that ends in exit tells its observer
    pub static EXIT: RefCell<Option<fn(i32) -> Vec<u8>>> = const { RefCell::new(None) };
}

/// Run `f` as one life of the program.  None: it crashed; its memory is gone, its files survive.
/// `f` returns what it wants to tell the observer.
pub fn life(crash: Crash, f: impl FnOnce() -> R<Vec<u8>>) -> Option<Vec<u8>> {
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0);
    if pid == 0 {
        NESTED.store(true, Ordering::SeqCst);
        limits(40);
        k().crash = crash;
        match f() {
            Ok(out) => {
                export(&out);
                raw::exit_group(40)
            }
            Err(v) => finish(Err(v)),
        }
    }
    let mut st = 0;
    loop {
        let r = unsafe { raw::sys6(libc::SYS_wait4, pid as i64, &mut st as *mut i32 as i64, 0, 0, 0, 0) };
        if r != -(libc::EINTR as i64) {
            break;
        }
    }
    if libc::WIFEXITED(st) {
        match libc::WEXITSTATUS(st) {
            40 => return Some(import()),
            41 => {
                import();
                return None;
            }
            42 => raw::exit_group(if NESTED.load(Ordering::SeqCst) { 42 } else { 0 }),
            c => finish(viol("harness", format!("life ended with {}", c))),
        }
    }
    finish(Err(signal(libc::WTERMSIG(st))))
}

/// timers are not inherited by a forked process
fn limits(real: i64) {
    let tv = |s| libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: s, tv_usec: 0 } };
    unsafe {
        libc::setitimer(libc::ITIMER_PROF, &tv(CPU), std::ptr::null_mut());
        libc::setitimer(libc::ITIMER_REAL, &tv(real), std::ptr::null_mut());
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}
const CPU: i64 = 8;
fn signal(sig: i32) -> Viol {
    match sig {
        libc::SIGPROF => Viol { class: "hang".into(), msg: format!("no end after {} s of CPU time", CPU) },
        libc::SIGALRM => Viol { class: "hang".into(), msg: "no end after 40 s".into() },
        libc::SIGKILL => Viol { class: "harness".into(), msg: "killed".into() },
        _ => Viol { class: "abort".into(), msg: format!("the process was killed by signal {} (stack overflow, abort)", sig) },
    }
}

// ---- one run

pub struct Outcome {
    pub viol: Option<Viol>,
    pub choices: Vec<u32>,
    pub hash: u64,
    pub steps: u64,
    pub simtime: u64,
    pub nontrivial: bool,
    pub stats: BTreeMap<String, u64>,
    pub log: String,
}

pub enum Source {
    Seed(u64),
    Script(Vec<u32>),
}

pub fn seed_of(seed: u64, prop: &str, index: u64) -> u64 {
    let mut h = mix(seed ^ 0x6b73696d);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ index)
}

/// execute `body` in a forked process under the simulator
pub fn exec(body: fn() -> R, src: Source, keep_log: bool) -> Outcome {
    unsafe {
        *(shm() as *mut u32) = 0;
        *(shm().add(8) as *mut u64) = 0;
    }
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            limits(60);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            let z = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &z);
        }
        let (seed, script) = match src {
            Source::Seed(s) => (s, None),
            Source::Script(v) => (0, Some(v)),
        };
        let ch = unsafe { Choices::new(shm().add(64) as *mut u32, shm() as *mut u32, CHOICES, seed, script) };
        kernel::install(Kernel::new(ch, keep_log));
        if !OWN_LOGGER.load(Ordering::SeqCst) {
            crate::logger::install();
        }
        let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            let e = crate::choice::below(1 << 16);
            k().entropy = e as u64;
            let r = catch_unwind(body);
            match r {
                Ok(r) => finish(r),
                Err(_) => {
                    let m = PANIC.with(|p| p.borrow().clone());
                    finish(viol("harness", format!("harness panic {}", m)))
                }
            }
        });
        let _ = h.unwrap().join();
        raw::exit_group(99);
    }
    let mut st = 0;
    loop {
        let r = unsafe { raw::sys6(libc::SYS_wait4, pid as i64, &mut st as *mut i32 as i64, 0, 0, 0, 0) };
        if r != -(libc::EINTR as i64) {
            break;
        }
    }
    let n = unsafe { *(shm() as *const u32) } as usize;
    let choices = unsafe { std::slice::from_raw_parts(shm().add(64) as *const u32, n) }.to_vec();
    let mut o = Outcome {
        viol: None,
        choices,
        hash: 0,
        steps: 0,
        simtime: 0,
        nontrivial: false,
        stats: BTreeMap::new(),
        log: String::new(),
    };
    if libc::WIFSIGNALED(st) {
        let sig = libc::WTERMSIG(st);
        o.viol = Some(signal(sig));
        return o;
    }
    let rl = unsafe { *(shm().add(8) as *const u64) } as usize;
    if libc::WEXITSTATUS(st) != 0 || rl == 0 {
        o.viol = Some(Viol {
            class: if libc::WEXITSTATUS(st) == 99 { "harness".into() } else { "abort".into() },
            msg: format!("the process ended with status {}", libc::WEXITSTATUS(st)),
        });
        return o;
    }
    let s = String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(shm().add(off_res()), rl) }).into_owned();
    let mut it = s.splitn(9, '\n');
    let status = it.next().unwrap().to_string();
    let class = unesc(it.next().unwrap());
    let msg = unesc(it.next().unwrap());
    if status == "viol" {
        o.viol = Some(Viol { class, msg });
    }
    o.hash = u64::from_str_radix(it.next().unwrap(), 16).unwrap();
    o.steps = it.next().unwrap().parse().unwrap();
    o.simtime = it.next().unwrap().parse().unwrap();
    o.nontrivial = it.next().unwrap() == "1";
    let ns: usize = it.next().unwrap().parse().unwrap();
    let mut rest = it.next().unwrap_or("");
    for _ in 0..ns {
        let (l, r) = rest.split_once('\n').unwrap();
        rest = r;
        let (n, v) = l.rsplit_once(' ').unwrap();
        o.stats.insert(n.to_string(), v.parse().unwrap());
    }
    o.log = rest.to_string();
    o
}
