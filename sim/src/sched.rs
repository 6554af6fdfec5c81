//! Cooperative scheduling of real threads: exactly one holds the baton; who gets it next is a
//! choice.  Threads hand it over at simulated calls, log records, allocations and futexes,
//! at accesses of static variables, and between any two basic blocks of the library.
use crate::kernel::{armed, k, EnterKernel, Plan, TID};
use crate::raw;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

#[derive(Clone, Copy, PartialEq)]
enum St {
    Runnable,
    Blocked { addr: usize, deadline: u64 },
    Done,
}

struct Sched {
    on: bool,
    st: Vec<St>,
    /// one in `rate` scheduling points switches
    rate: u32,
    switches: u64,
    timed_out: Vec<bool>,
    /// fault state of the threads that do not run
    ctx: Vec<Ctx>,
}

/// every thread has its own faults and fault counts
pub struct Ctx {
    pub plan: Plan,
    pub soft: u64,
    pub hard: u64,
    pub eintr_run: u32,
}
impl Ctx {
    fn new() -> Ctx {
        Ctx { plan: Plan::none(), soft: 0, hard: 0, eintr_run: 0 }
    }
    fn swap(&mut self) {
        let kn = k();
        std::mem::swap(&mut self.plan, &mut kn.plan);
        std::mem::swap(&mut self.soft, &mut kn.soft_fired);
        std::mem::swap(&mut self.hard, &mut kn.hard_fired);
        std::mem::swap(&mut self.eintr_run, &mut kn.eintr_run);
    }
}

struct Holder(std::cell::UnsafeCell<Sched>);
unsafe impl Sync for Holder {}
static S: Holder =
    Holder(std::cell::UnsafeCell::new(Sched { on: false, st: vec![], rate: 0, switches: 0, timed_out: vec![], ctx: vec![] }));
static BATON: [AtomicU32; 16] = [const { AtomicU32::new(0) }; 16];
static MAIN: AtomicU32 = AtomicU32::new(0);
/// allocations until the next scheduling point
static ALLOC_LEFT: AtomicU64 = AtomicU64::new(u64::MAX);
static ALLOC_EVERY: AtomicU64 = AtomicU64::new(u64::MAX);

fn s() -> &'static mut Sched {
    unsafe { &mut *S.0.get() }
}

fn wait(t: usize) {
    while BATON[t].load(Ordering::SeqCst) == 0 {
        raw::futex_wait(&BATON[t], 0);
    }
    BATON[t].store(0, Ordering::SeqCst);
}
fn give(t: usize) {
    BATON[t].store(1, Ordering::SeqCst);
    raw::futex_wake(&BATON[t]);
}

/// pick another runnable thread; None if there is none
fn others(me: usize) -> Vec<usize> {
    s().st.iter().enumerate().filter(|(i, x)| *i != me && **x == St::Runnable).map(|(i, _)| i).collect()
}

fn switch_to(me: usize, t: usize) {
    s().switches += 1;
    let kn = k();
    kn.nontrivial = true;
    kn.count("sched.switch");
    kn.event(&format!("switch {} -> {}", me, t));
    if s().ctx.len() > me && s().ctx.len() > t {
        s().ctx[me].swap();
        s().ctx[t].swap();
    }
    give(t);
    if s().st[me] != St::Done {
        wait(me);
    }
}

/// a point at which another thread may be scheduled
pub fn yield_point() {
    if !s().on || !armed() {
        return;
    }
    let _g = EnterKernel::new();
    let me = TID.with(|t| t.get()) as usize;
    let o = others(me);
    if o.is_empty() {
        return;
    }
    let n = o.len() as u32;
    let rate = s().rate;
    let v = k().ch.draw(n + 1, |w| {
        if ((w & 0xffff) * rate as u64 >> 16) == 0 {
            1 + ((w >> 32) % n as u64) as u32
        } else {
            0
        }
    });
    if v > 0 {
        switch_to(me, o[v as usize - 1]);
    }
}


// The library is compiled a second time with calls before every basic block, load and store,
// see instrument.sh.
/// basic blocks until the running thread is interrupted
static BLOCKS: AtomicU64 = AtomicU64::new(u64::MAX);
/// the distance is below two to the power of this
static APART: AtomicU32 = AtomicU32::new(0);
/// interruptions left in this run
static INTERRUPTS: AtomicU32 = AtomicU32::new(0);
/// scheduling points at static variables left in this run
static STATICS: AtomicU32 = AtomicU32::new(0);

fn next_interrupt() {
    let r = k().next_entropy();
    let v = 1 + r % (1 + APART.load(Ordering::Relaxed) as u64);
    BLOCKS.store(1 + (r >> 32) % (1 << v), Ordering::Relaxed)
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    let n = BLOCKS.load(Ordering::Relaxed);
    if n == u64::MAX || !armed() {
        return;
    }
    if n > 0 {
        BLOCKS.store(n - 1, Ordering::Relaxed);
        return;
    }
    let _g = EnterKernel::new();
    let left = INTERRUPTS.load(Ordering::Relaxed);
    if left == 0 {
        BLOCKS.store(u64::MAX, Ordering::Relaxed);
        return;
    }
    INTERRUPTS.store(left - 1, Ordering::Relaxed);
    next_interrupt();
    let me = TID.with(|t| t.get()) as usize;
    let o = others(me);
    if !o.is_empty() {
        let n = o.len() as u32;
        let v = k().ch.draw(n + 1, |w| 1 + ((w >> 32) % n as u64) as u32);
        if v > 0 {
            k().count("sched.interrupt");
            switch_to(me, o[v as usize - 1]);
        }
    }
}

extern "C" {
    static __data_start: u8;
    static end: u8;
}
#[inline]
fn access(a: usize) {
    let n = STATICS.load(Ordering::Relaxed);
    if n == 0 {
        return;
    }
    let (lo, hi) = unsafe { (&__data_start as *const u8 as usize, &end as *const u8 as usize) };
    if a >= lo && a < hi && armed() {
        STATICS.store(n - 1, Ordering::Relaxed);
        yield_point()
    }
}
macro_rules! accesses {
    ($($f:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $f(a: usize) {
            access(a)
        }
    )* };
}
accesses! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}

/// called by the allocator
#[inline]
pub fn alloc_point() {
    if ALLOC_EVERY.load(Ordering::Relaxed) == u64::MAX || !armed() {
        return;
    }
    let l = ALLOC_LEFT.load(Ordering::Relaxed);
    if l > 0 {
        ALLOC_LEFT.store(l - 1, Ordering::Relaxed);
        return;
    }
    let e = ALLOC_EVERY.load(Ordering::Relaxed);
    let r = {
        let _g = EnterKernel::new();
        k().next_entropy()
    };
    ALLOC_LEFT.store(1 + r % (2 * e), Ordering::Relaxed);
    yield_point();
}

/// the running thread cannot go on: run another one, or report a deadlock
fn block_or_die(me: usize) {
    let o = others(me);
    if !o.is_empty() {
        let n = o.len() as u32;
        let v = k().ch.draw(n, |w| ((w >> 32) % n as u64) as u32);
        switch_to(me, o[v as usize]);
        return;
    }
    // a sleeper with a deadline?
    let mut best: Option<(u64, usize)> = None;
    for (i, x) in s().st.iter().enumerate() {
        if let St::Blocked { deadline, .. } = *x {
            if deadline != u64::MAX && best.map(|b| deadline < b.0).unwrap_or(true) {
                best = Some((deadline, i));
            }
        }
    }
    match best {
        Some((d, t)) => {
            let kn = k();
            kn.clock_ns = kn.clock_ns.max(d);
            s().st[t] = St::Runnable;
            s().timed_out[t] = true;
            if t != me {
                switch_to(me, t);
            }
        }
        None => {
            k().event("deadlock");
            crate::run::finish(Err(crate::run::Viol {
                class: "deadlock".into(),
                msg: "every thread waits for ever".into(),
            }))
        }
    }
}

pub fn futex(addr: *const u32, op: i32, val: u32, timeout: *const libc::timespec) -> i64 {
    yield_point();
    let _g = EnterKernel::new();
    let me = TID.with(|t| t.get()) as usize;
    match op {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            if unsafe { std::ptr::read_volatile(addr) } != val {
                return -(libc::EAGAIN as i64);
            }
            let kn = k();
            kn.step();
            kn.event(&format!("futex wait t{}", me));
            kn.count("sched.futex_wait");
            let deadline = if timeout.is_null() {
                u64::MAX
            } else {
                let t = unsafe { &*timeout };
                let rel = t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64;
                if op == libc::FUTEX_WAIT {
                    kn.clock_ns + rel
                } else {
                    rel
                }
            };
            if !s().on {
                s().st = vec![St::Runnable; me + 1];
                s().timed_out = vec![false; me + 1];
            }
            s().st[me] = St::Blocked { addr: addr as usize, deadline };
            s().timed_out[me] = false;
            block_or_die(me);
            if s().timed_out[me] {
                s().timed_out[me] = false;
                return -(libc::ETIMEDOUT as i64);
            }
            0
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mut n = 0;
            if s().on {
                for x in s().st.iter_mut() {
                    if let St::Blocked { addr: a, .. } = *x {
                        if a == addr as usize && n < val as i64 {
                            *x = St::Runnable;
                            n += 1;
                        }
                    }
                }
            }
            n
        }
        _ => -(libc::ENOSYS as i64),
    }
}

/// run the bodies as simulated threads under one baton
pub fn run_threads(bodies: Vec<Box<dyn FnOnce() + Send>>, rate: u32, alloc_every: u64, interrupts: u32, apart: u32) -> u64 {
    let n = bodies.len();
    {
        let x = s();
        x.on = true;
        x.st = vec![St::Runnable; n];
        x.timed_out = vec![false; n];
        x.rate = rate;
        x.switches = 0;
        x.ctx = (0..n).map(|_| Ctx::new()).collect();
    }
    ALLOC_EVERY.store(alloc_every, Ordering::SeqCst);
    ALLOC_LEFT.store(alloc_every, Ordering::SeqCst);
    INTERRUPTS.store(interrupts, Ordering::SeqCst);
    APART.store(apart, Ordering::SeqCst);
    next_interrupt();
    STATICS.store(500, Ordering::SeqCst);
    MAIN.store(0, Ordering::SeqCst);
    let mut hs = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        BATON[i].store(0, Ordering::SeqCst);
        let h = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
            TID.with(|t| t.set(i as u32));
            wait(i);
            b();
            let _g = EnterKernel::new();
            s().st[i] = St::Done;
            k().event(&format!("thread {} done", i));
            if s().st.iter().all(|x| *x == St::Done) {
                MAIN.store(1, Ordering::SeqCst);
                raw::futex_wake(&MAIN);
            } else {
                block_or_die(i);
            }
        });
        hs.push(h.expect("spawn"));
    }
    let first = crate::choice::below(n as u32) as usize;
    give(first);
    while MAIN.load(Ordering::SeqCst) == 0 {
        raw::futex_wait(&MAIN, 0);
    }
    for h in hs {
        let _ = h.join();
    }
    s().on = false;
    s().ctx.clear();
    ALLOC_EVERY.store(u64::MAX, Ordering::SeqCst);
    BLOCKS.store(u64::MAX, Ordering::SeqCst);
    STATICS.store(0, Ordering::SeqCst);
    s().switches
}
