//! The simulated kernel: in-memory file system, descriptors, fault injection, clock, event log.
use crate::choice::{below, mix, Choices};
use std::cell::Cell;
use std::collections::BTreeMap;

thread_local! {
    /// the thread is inside a library call: its system calls are simulated
    pub static ARMED: Cell<bool> = const { Cell::new(false) };
    /// the thread is inside the simulator: no yielding, no interception
    pub static IN_KERNEL: Cell<bool> = const { Cell::new(false) };
    /// index of the simulated thread
    pub static TID: Cell<u32> = const { Cell::new(0) };
}

pub const FD_BASE: i32 = 1_000_000;
pub const CWD: &[u8] = b"/sim/cwd";

pub struct EnterKernel(bool);
impl EnterKernel {
    pub fn new() -> EnterKernel {
        EnterKernel(IN_KERNEL.with(|c| c.replace(true)))
    }
}
impl Drop for EnterKernel {
    fn drop(&mut self) {
        let old = self.0;
        IN_KERNEL.with(|c| c.set(old))
    }
}

pub fn armed() -> bool {
    ARMED.with(|a| a.get()) && !IN_KERNEL.with(|c| c.get())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum F {
    ShortRead,
    ShortWrite,
    EintrRead,
    EintrWrite,
    EintrOpen,
    StatSize,
    EioRead,
    EisdirRead,
    EioWrite,
    Enospc,
    Edquot,
    Efbig,
    OpenEacces,
    OpenEmfile,
    OpenEnoent,
    OpenEio,
    OpenEnospc,
    OpenErofs,
    StatFail,
    SyncFail,
    MetaFail,
    DiskFull,
    StdoutFail,
    OpenOther,
    ReadOther,
    WriteOther,
    WriteZero,
}

pub const ALL_FAULTS: &[F] = &[
    F::ShortRead, F::ShortWrite, F::EintrRead, F::EintrWrite, F::EintrOpen, F::StatSize, F::EioRead, F::EisdirRead,
    F::EioWrite, F::Enospc, F::Edquot, F::Efbig, F::OpenEacces, F::OpenEmfile, F::OpenEnoent, F::OpenEio,
    F::OpenEnospc, F::OpenErofs, F::StatFail, F::SyncFail, F::MetaFail, F::DiskFull, F::StdoutFail,
    F::OpenOther, F::ReadOther, F::WriteOther, F::WriteZero,
];

impl F {
    pub fn soft(self) -> bool {
        matches!(self, F::ShortRead | F::ShortWrite | F::EintrRead | F::EintrWrite | F::EintrOpen | F::StatSize)
    }
    pub fn name(self) -> &'static str {
        match self {
            F::ShortRead => "fault.short_read",
            F::ShortWrite => "fault.short_write",
            F::EintrRead => "fault.eintr_read",
            F::EintrWrite => "fault.eintr_write",
            F::EintrOpen => "fault.eintr_open",
            F::StatSize => "fault.stat_size",
            F::EioRead => "fault.eio_read",
            F::EisdirRead => "fault.eisdir_read",
            F::EioWrite => "fault.eio_write",
            F::Enospc => "fault.enospc",
            F::Edquot => "fault.edquot",
            F::Efbig => "fault.efbig",
            F::OpenEacces => "fault.open_eacces",
            F::OpenEmfile => "fault.open_emfile",
            F::OpenEnoent => "fault.open_enoent",
            F::OpenEio => "fault.open_eio",
            F::OpenEnospc => "fault.open_enospc",
            F::OpenErofs => "fault.open_erofs",
            F::StatFail => "fault.stat_fail",
            F::SyncFail => "fault.sync_fail",
            F::MetaFail => "fault.meta_fail",
            F::DiskFull => "fault.disk_full",
            F::StdoutFail => "fault.stdout_fail",
            F::OpenOther => "fault.open_other",
            F::ReadOther => "fault.read_other",
            F::WriteOther => "fault.write_other",
            F::WriteZero => "fault.write_zero",
        }
    }
}

pub const READ_SOFT: &[F] = &[F::ShortRead, F::EintrRead, F::EintrOpen, F::StatSize];
pub const WRITE_SOFT: &[F] = &[F::ShortWrite, F::EintrWrite, F::EintrOpen];

/// which faults may fire, how often, and at most how many hard ones
#[derive(Clone)]
pub struct Plan {
    pub mask: u64,
    /// one in `rate` faultable calls gets a fault; 0: none
    pub rate: u32,
    /// a fault at exactly this faultable call from now
    pub oneshot: Option<u32>,
    pub max_hard: u32,
    /// bytes that still fit on the simulated disk
    pub space: Option<u64>,
    /// standard output fails with this errno
    pub stdout_errno: i32,
    /// bytes standard output takes before it fails
    pub stdout_space: u64,
    /// one in so many writes to standard output is short or interrupted; 0: none
    pub stdout_soft: u32,
}

impl Plan {
    pub fn none() -> Plan {
        Plan { mask: 0, rate: 0, oneshot: None, max_hard: u32::MAX, space: None, stdout_errno: 0, stdout_space: 0, stdout_soft: 0 }
    }
    pub fn mask_of(fs: &[F]) -> u64 {
        fs.iter().fold(0, |m, f| m | 1 << (*f as u8))
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Node {
    File(Vec<u8>),
    Dir,
    Symlink(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    /// content known to be durable (after fsync), and whether the file was changed since
    pub dirty: bool,
    pub mode: u32,
    pub mtime: u64,
}

#[derive(Clone)]
pub struct Ofd {
    pub ino: usize,
    pub off: u64,
    pub flags: i32,
    pub path: Vec<u8>,
    pub refs: u32,
}

/// something that changed, or tried to change, the file system
#[derive(Clone, Debug)]
pub struct Mutation {
    pub op: &'static str,
    pub path: Vec<u8>,
}

pub enum Crash {
    Never,
    /// crash at the n-th mutating call from now, keeping this many per mille of the write
    At { calls: u32, keep_permille: u32 },
}

pub struct Kernel {
    pub ch: Choices,
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<Vec<u8>, usize>,
    /// of the running process
    pub cwd: Vec<u8>,
    pub fds: BTreeMap<i32, usize>,
    pub ofds: Vec<Ofd>,
    pub next_fd: i32,
    pub plan: Plan,
    pub eintr_run: u32,
    pub soft_fired: u64,
    pub hard_fired: u64,
    pub stats: BTreeMap<String, u64>,
    pub clock_ns: u64,
    pub entropy: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub keep_log: bool,
    pub log: String,
    pub hash: u64,
    pub nontrivial: bool,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub mutations: Vec<Mutation>,
    pub opened: Vec<Vec<u8>>,
    pub actor: Option<Box<dyn FnMut(&mut Kernel)>>,
    pub crash: Crash,
    pub panic_msg: String,
}

struct Holder(std::cell::UnsafeCell<Option<Box<Kernel>>>);
unsafe impl Sync for Holder {}
static KERNEL: Holder = Holder(std::cell::UnsafeCell::new(None));

/// The kernel of this run.  Only the thread that holds the baton may call this.
pub fn k() -> &'static mut Kernel {
    unsafe { (*KERNEL.0.get()).as_mut().expect("no kernel") }
}

pub fn install(kernel: Kernel) {
    unsafe { *KERNEL.0.get() = Some(Box::new(kernel)) }
}

pub fn show(p: &[u8]) -> String {
    String::from_utf8_lossy(p).into_owned()
}

impl Kernel {
    pub fn new(ch: Choices, keep_log: bool) -> Kernel {
        let mut kn = Kernel {
            ch,
            inodes: vec![],
            names: BTreeMap::new(),
            fds: BTreeMap::new(),
            ofds: vec![],
            cwd: CWD.to_vec(),
            next_fd: FD_BASE,
            plan: Plan::none(),
            eintr_run: 0,
            soft_fired: 0,
            hard_fired: 0,
            stats: BTreeMap::new(),
            clock_ns: 1_600_000_000_000_000_000,
            entropy: 0,
            steps: 0,
            max_steps: 100_000,
            keep_log,
            log: String::new(),
            hash: 0xcbf29ce484222325,
            nontrivial: false,
            stdout: vec![],
            stderr: vec![],
            mutations: vec![],
            opened: vec![],
            actor: None,
            crash: Crash::Never,
            panic_msg: String::new(),
        };
        kn.reset_fs();
        kn
    }

    pub fn reset_fs(&mut self) {
        self.inodes.clear();
        self.names.clear();
        for d in [&b"/"[..], b"/sim", b"/sim/cwd", b"/sim/w", b"/tmp", b"/home", b"/home/sim"] {
            self.add(d, Node::Dir);
        }
    }

    pub fn add(&mut self, path: &[u8], node: Node) -> usize {
        self.inodes.push(Inode { node, dirty: false, mode: 0o644, mtime: self.clock_ns });
        let i = self.inodes.len() - 1;
        self.names.insert(path.to_vec(), i);
        i
    }

    /// harness access: store a file, creating its directories
    pub fn put(&mut self, path: &str, data: &[u8]) {
        self.put_bytes(path.as_bytes(), data)
    }
    pub fn put_bytes(&mut self, path: &[u8], data: &[u8]) {
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
        let mut cur = vec![];
        for c in &comps[..comps.len() - 1] {
            cur.push(b'/');
            cur.extend_from_slice(c);
            if !self.names.contains_key(&cur) {
                self.add(&cur.clone(), Node::Dir);
            }
        }
        let mut h = 0u64;
        for b in data {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        self.event(&format!("stored: {} {} #{:x}", show(path), data.len(), h & 0xffffffff));
        self.add(path, Node::File(data.to_vec()));
    }
    pub fn get(&self, path: &str) -> Option<Vec<u8>> {
        self.get_bytes(path.as_bytes())
    }
    pub fn get_bytes(&self, path: &[u8]) -> Option<Vec<u8>> {
        let p = self.resolve(path, true).ok()?;
        match self.inodes[*self.names.get(&p)?].node {
            Node::File(ref d) => Some(d.clone()),
            _ => None,
        }
    }
    /// harness access
    pub fn remove(&mut self, path: &str) {
        self.names.remove(path.as_bytes());
    }
    pub fn chdir(&mut self, path: &[u8]) -> i64 {
        self.mutate("change directory", path);
        let p = match self.resolve(path, true) {
            Ok(p) => p,
            Err(e) => return -(e as i64),
        };
        match self.names.get(&p).map(|i| &self.inodes[*i].node) {
            Some(Node::Dir) => (),
            Some(_) => return -(libc::ENOTDIR as i64),
            None => return -(libc::ENOENT as i64),
        }
        self.event(&format!("chdir {}", show(&p)));
        self.cwd = p;
        0
    }
    pub fn snapshot(&self) -> BTreeMap<Vec<u8>, Node> {
        self.names.iter().map(|(p, i)| (p.clone(), self.inodes[*i].node.clone())).collect()
    }

    /// absolute, normalised path; symbolic links resolved (the last one only if `follow`)
    pub fn resolve(&self, path: &[u8], follow: bool) -> Result<Vec<u8>, i32> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if path.len() >= 4096 {
            return Err(libc::ENAMETOOLONG);
        }
        let mut todo: Vec<Vec<u8>> =
            path.split(|c| *c == b'/').filter(|c| !c.is_empty()).rev().map(|c| c.to_vec()).collect();
        let trailing = path.ends_with(b"/");
        let mut cur: Vec<Vec<u8>> = if path[0] == b'/' {
            vec![]
        } else {
            self.cwd.split(|c| *c == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect()
        };
        let mut links = 0;
        while let Some(c) = todo.pop() {
            // the directory we are in must exist
            let dir = join(&cur);
            match self.names.get(&dir).map(|i| &self.inodes[*i].node) {
                Some(Node::Dir) => (),
                Some(_) => return Err(libc::ENOTDIR),
                None => return Err(libc::ENOENT),
            }
            if c == b"." {
                continue;
            }
            if c == b".." {
                cur.pop();
                continue;
            }
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            cur.push(c);
            let p = join(&cur);
            if let Some(i) = self.names.get(&p) {
                if let Node::Symlink(ref t) = self.inodes[*i].node {
                    if follow || !todo.is_empty() || trailing {
                        links += 1;
                        if links > 40 {
                            return Err(libc::ELOOP);
                        }
                        cur.pop();
                        if t.first() == Some(&b'/') {
                            cur.clear();
                        }
                        for c in t.split(|c| *c == b'/').filter(|c| !c.is_empty()).rev() {
                            todo.push(c.to_vec());
                        }
                    }
                }
            }
        }
        let p = join(&cur);
        if trailing {
            if let Some(i) = self.names.get(&p) {
                if self.inodes[*i].node != Node::Dir {
                    return Err(libc::ENOTDIR);
                }
            }
        }
        Ok(p)
    }

    pub fn lookup(&self, path: &[u8], follow: bool) -> Result<(Vec<u8>, usize), i32> {
        let p = self.resolve(path, follow)?;
        match self.names.get(&p) {
            Some(i) => Ok((p.clone(), *i)),
            None => Err(libc::ENOENT),
        }
    }

    // ---- event log, statistics

    pub fn event(&mut self, s: &str) {
        for b in s.as_bytes() {
            self.hash ^= *b as u64;
            self.hash = self.hash.wrapping_mul(0x100000001b3);
        }
        self.hash ^= 10;
        self.hash = self.hash.wrapping_mul(0x100000001b3);
        if self.keep_log && self.log.len() < 2_000_000 {
            self.log.push_str(s);
            self.log.push('\n');
        }
    }
    pub fn count(&mut self, what: &str) {
        self.count_n(what, 1)
    }
    pub fn count_n(&mut self, what: &str, n: u64) {
        match self.stats.get_mut(what) {
            Some(v) => *v += n,
            None => {
                self.stats.insert(what.to_string(), n);
            }
        }
    }
    pub fn next_entropy(&mut self) -> u64 {
        self.entropy = self.entropy.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.entropy)
    }

    /// every simulated call starts here
    pub fn step(&mut self) {
        self.steps += 1;
        let e = self.next_entropy();
        self.clock_ns += 10_000 + (e % 1_000_000);
        if self.steps > self.max_steps {
            self.event("step limit");
            crate::run::finish(Err(crate::run::Viol {
                class: "unbounded".into(),
                msg: format!("more than {} system calls", self.max_steps),
            }));
        }
        if let Some(mut a) = self.actor.take() {
            a(self);
            self.actor = Some(a);
        }
    }

    // ---- faults

    pub fn fire(&mut self, f: F) {
        if f.soft() {
            self.soft_fired += 1;
        } else {
            self.hard_fired += 1;
        }
        self.count(f.name());
    }

    /// does a fault hit this call?
    pub fn fault(&mut self, cands: &[F]) -> Option<F> {
        let mask = self.plan.mask;
        if mask == 0 {
            return None;
        }
        let hard_ok = self.hard_fired < self.plan.max_hard as u64;
        let mut c = [F::ShortRead; 16];
        let mut n = 0;
        for f in cands {
            if mask & (1 << (*f as u8)) == 0 || (!f.soft() && !hard_ok) {
                continue;
            }
            if matches!(f, F::EintrRead | F::EintrWrite | F::EintrOpen) && self.eintr_run >= 3 {
                continue;
            }
            c[n] = *f;
            n += 1;
        }
        if n == 0 {
            return None;
        }
        let mut forced = false;
        if let Some(o) = self.plan.oneshot {
            if o == 0 {
                forced = true;
                self.plan.oneshot = None;
            } else {
                self.plan.oneshot = Some(o - 1);
            }
        }
        let rate = self.plan.rate;
        if !forced && rate == 0 {
            return None;
        }
        let v = self.ch.draw(n as u32 + 1, |w| {
            if forced || ((w & 0xffff) * rate as u64 >> 16) == 0 {
                1 + ((w >> 32) % n as u64) as u32
            } else {
                0
            }
        });
        if v == 0 {
            self.eintr_run = 0;
            return None;
        }
        let f = c[v as usize - 1];
        if matches!(f, F::EintrRead | F::EintrWrite | F::EintrOpen) {
            self.eintr_run += 1;
        } else {
            self.eintr_run = 0;
        }
        self.fire(f);
        Some(f)
    }

    fn mutate(&mut self, op: &'static str, path: &[u8]) {
        self.mutations.push(Mutation { op, path: path.to_vec() });
    }

    /// a mutating call is about to happen: does the crash come now?
    fn crash_now(&mut self) -> Option<u32> {
        if let Crash::At { ref mut calls, keep_permille } = self.crash {
            if *calls == 0 {
                return Some(keep_permille);
            }
            *calls -= 1;
        }
        None
    }

    fn die(&mut self) -> ! {
        self.event("CRASH");
        self.count("fault.crash");
        crate::run::crashed()
    }

    // ---- calls; negative errno on failure

    pub fn open(&mut self, path: &[u8], flags: i32, mode: u32) -> i64 {
        self.step();
        let r = self.open_(path, flags, mode);
        self.event(&format!("open {} {:o} -> {}", show(path), flags & !libc::O_CLOEXEC & !libc::O_LARGEFILE, r));
        r
    }
    fn open_(&mut self, path: &[u8], flags: i32, mode: u32) -> i64 {
        let acc = flags & libc::O_ACCMODE;
        let wr = acc != libc::O_RDONLY;
        let creat = flags & libc::O_CREAT != 0;
        let cands: &[F] = if wr || creat {
            &[F::EintrOpen, F::OpenEacces, F::OpenEmfile, F::OpenEio, F::OpenEnospc, F::OpenErofs, F::OpenOther]
        } else {
            &[F::EintrOpen, F::OpenEacces, F::OpenEmfile, F::OpenEio, F::OpenEnoent, F::OpenOther]
        };
        if let Some(f) = self.fault(cands) {
            return -(match f {
                F::EintrOpen => libc::EINTR,
                F::OpenEacces => libc::EACCES,
                F::OpenEmfile => libc::EMFILE,
                F::OpenEnospc => libc::ENOSPC,
                F::OpenErofs => libc::EROFS,
                F::OpenEnoent => libc::ENOENT,
                F::OpenOther => self.one_of(&[libc::ENFILE, libc::EPERM, libc::ENOMEM, libc::ELOOP, libc::EBUSY, libc::EAGAIN, libc::ETIMEDOUT, libc::ENXIO, libc::ENODEV, libc::EOVERFLOW]),
                _ => libc::EIO,
            } as i64);
        }
        let p = match self.resolve(path, flags & libc::O_NOFOLLOW == 0) {
            Ok(p) => p,
            Err(e) => return -(e as i64),
        };
        if flags & libc::O_TMPFILE == libc::O_TMPFILE {
            return -(libc::EOPNOTSUPP as i64);
        }
        let existing = self.names.get(&p).cloned();
        let ino = match existing {
            Some(i) => {
                if creat && flags & libc::O_EXCL != 0 {
                    return -(libc::EEXIST as i64);
                }
                if self.inodes[i].node == Node::Dir && (wr || creat) {
                    return -(libc::EISDIR as i64);
                }
                if let Node::Symlink(_) = self.inodes[i].node {
                    return -(libc::ELOOP as i64);
                }
                if self.inodes[i].node != Node::Dir && flags & libc::O_DIRECTORY != 0 {
                    return -(libc::ENOTDIR as i64);
                }
                if flags & libc::O_TRUNC != 0 && wr {
                    if self.crash_now().is_some() {
                        self.die()
                    }
                    self.mutate("truncate", &p);
                    self.inodes[i].node = Node::File(vec![]);
                    self.inodes[i].dirty = true;
                    self.inodes[i].mtime = self.clock_ns;
                } else if wr {
                    self.mutate("open for writing", &p);
                }
                i
            }
            None => {
                if !creat {
                    return -(libc::ENOENT as i64);
                }
                if path.ends_with(b"/") {
                    return -(libc::EISDIR as i64);
                }
                let dir = parent(&p);
                match self.names.get(&dir).map(|i| &self.inodes[*i].node) {
                    Some(Node::Dir) => (),
                    Some(_) => return -(libc::ENOTDIR as i64),
                    None => return -(libc::ENOENT as i64),
                }
                if self.crash_now().is_some() {
                    self.die()
                }
                self.mutate("create", &p);
                let i = self.add(&p, Node::File(vec![]));
                self.inodes[i].dirty = true;
                self.inodes[i].mode = mode & 0o777;
                i
            }
        };
        self.opened.push(p.clone());
        self.ofds.push(Ofd { ino, off: 0, flags, path: p, refs: 1 });
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, self.ofds.len() - 1);
        fd as i64
    }

    pub fn close(&mut self, fd: i32) -> i64 {
        self.step();
        let r = match self.fds.remove(&fd) {
            Some(o) => {
                self.ofds[o].refs -= 1;
                0
            }
            None => -(libc::EBADF as i64),
        };
        self.event(&format!("close {} -> {}", fd, r));
        r
    }

    fn ofd(&self, fd: i32) -> Result<usize, i64> {
        self.fds.get(&fd).cloned().ok_or(-(libc::EBADF as i64))
    }

    /// `at`: positioned read
    pub fn read(&mut self, fd: i32, buf: &mut [u8], at: Option<u64>) -> i64 {
        self.step();
        let r = self.read_(fd, buf, at);
        self.event(&format!("read {} {} -> {}", fd, buf.len().min(1 << 20), r));
        r
    }
    fn read_(&mut self, fd: i32, buf: &mut [u8], at: Option<u64>) -> i64 {
        let o = match self.ofd(fd) {
            Ok(o) => o,
            Err(e) => return e,
        };
        if self.ofds[o].flags & libc::O_ACCMODE == libc::O_WRONLY {
            return -(libc::EBADF as i64);
        }
        let ino = self.ofds[o].ino;
        let off = at.unwrap_or(self.ofds[o].off);
        let avail = match self.inodes[ino].node {
            Node::File(ref d) => (d.len() as u64).saturating_sub(off) as usize,
            _ => return -(libc::EISDIR as i64),
        };
        let mut n = avail.min(buf.len());
        let cands: &[F] = if n >= 2 {
            &[F::ShortRead, F::EintrRead, F::EioRead, F::EisdirRead, F::ReadOther]
        } else {
            &[F::EintrRead, F::EioRead, F::EisdirRead, F::ReadOther]
        };
        match self.fault(cands) {
            Some(F::ShortRead) => n = self.cut(n),
            Some(F::EintrRead) => return -(libc::EINTR as i64),
            Some(F::EisdirRead) => return -(libc::EISDIR as i64),
            Some(F::ReadOther) => return -(self.one_of(&[libc::EAGAIN, libc::ETIMEDOUT, libc::ENOMEM, libc::EPERM, libc::EINVAL, libc::EBADF]) as i64),
            Some(_) => return -(libc::EIO as i64),
            None => (),
        }
        if let Node::File(ref d) = self.inodes[ino].node {
            buf[..n].copy_from_slice(&d[off as usize..off as usize + n]);
        }
        if at.is_none() {
            self.ofds[o].off = off + n as u64;
        }
        n as i64
    }

    fn one_of(&mut self, e: &[i32]) -> i32 {
        let n = e.len() as u32;
        e[self.ch.draw(n, |w| ((w >> 32) % n as u64) as u32) as usize]
    }

    /// how much of n (>= 2) a short transfer moves: 1..n-1
    fn cut(&mut self, n: usize) -> usize {
        let m = (n - 1).min(u32::MAX as usize / 2) as u32;
        let v = self.ch.draw(m, |w| {
            let r = (w >> 32) as u32;
            match w & 3 {
                0 => r % m.min(4),
                1 => m - 1 - r % m.min(4),
                _ => r % m,
            }
        });
        1 + v as usize
    }

    pub fn write(&mut self, fd: i32, buf: &[u8], at: Option<u64>) -> i64 {
        self.step();
        let r = self.write_(fd, buf, at);
        let h = buf.iter().fold(7u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
        self.event(&format!("write {} {} #{:x} -> {}", fd, buf.len(), h & 0xffffff, r));
        r
    }
    fn write_(&mut self, fd: i32, buf: &[u8], at: Option<u64>) -> i64 {
        let o = match self.ofd(fd) {
            Ok(o) => o,
            Err(e) => return e,
        };
        if self.ofds[o].flags & libc::O_ACCMODE == libc::O_RDONLY {
            return -(libc::EBADF as i64);
        }
        let ino = self.ofds[o].ino;
        let mut n = buf.len();
        let cands: &[F] = if n >= 2 {
            &[F::ShortWrite, F::EintrWrite, F::EioWrite, F::Enospc, F::Edquot, F::Efbig, F::WriteOther, F::WriteZero]
        } else {
            &[F::EintrWrite, F::EioWrite, F::Enospc, F::Edquot, F::Efbig, F::WriteOther, F::WriteZero]
        };
        match self.fault(cands) {
            Some(F::ShortWrite) => n = self.cut(n),
            Some(F::EintrWrite) => return -(libc::EINTR as i64),
            Some(F::Enospc) => return -(libc::ENOSPC as i64),
            Some(F::Edquot) => return -(libc::EDQUOT as i64),
            Some(F::Efbig) => return -(libc::EFBIG as i64),
            Some(F::WriteOther) => return -(self.one_of(&[libc::EAGAIN, libc::ETIMEDOUT, libc::EPIPE, libc::EPERM, libc::EINVAL, libc::EBADF, libc::ENOMEM]) as i64),
            Some(F::WriteZero) => return 0,
            Some(_) => return -(libc::EIO as i64),
            None => (),
        }
        if let Some(s) = self.plan.space {
            if n as u64 > s {
                self.fire(F::DiskFull);
                if s == 0 {
                    return -(libc::ENOSPC as i64);
                }
                n = s as usize;
            }
            self.plan.space = Some(s - n as u64);
        }
        let mut dead = false;
        if n > 0 {
            if let Some(keep) = self.crash_now() {
                n = (n as u64 * keep as u64 / 1000) as usize;
                dead = true;
            }
        }
        let append = self.ofds[o].flags & libc::O_APPEND != 0;
        let mut off = at.unwrap_or(self.ofds[o].off) as usize;
        let path = self.ofds[o].path.clone();
        if let Node::File(ref mut d) = self.inodes[ino].node {
            if append {
                off = d.len();
            }
            if off + n > (1 << 30) {
                return -(libc::EFBIG as i64);
            }
            if d.len() < off + n {
                d.resize(off + n, 0);
            }
            d[off..off + n].copy_from_slice(&buf[..n]);
        }
        self.inodes[ino].dirty = true;
        self.inodes[ino].mtime = self.clock_ns;
        self.mutate("write", &path);
        if dead {
            self.die()
        }
        if at.is_none() {
            self.ofds[o].off = (off + n) as u64;
        }
        n as i64
    }

    pub fn stdio(&mut self, fd: i32, buf: &[u8]) -> i64 {
        self.step();
        let e = self.plan.stdout_errno;
        let mut n = buf.len();
        let mut err = 0;
        let rate = self.plan.stdout_soft as u64;
        if fd == 1 && rate > 0 {
            let v = self.ch.draw(3, |w| if ((w & 0xffff) * rate >> 16) == 0 { 1 + ((w >> 32) % 2) as u32 } else { 0 });
            if v == 1 && n >= 2 {
                self.fire(F::ShortWrite);
                n = 1 + self.ch.draw(n as u32 - 1, |w| ((w >> 32) % (n as u64 - 1)) as u32) as usize;
            } else if v == 2 && self.eintr_run < 3 {
                self.eintr_run += 1;
                self.fire(F::EintrWrite);
                err = libc::EINTR;
            }
        }
        if fd == 1 && e != 0 && err == 0 && n as u64 > self.plan.stdout_space {
            self.fire(F::StdoutFail);
            n = self.plan.stdout_space as usize;
            if n == 0 {
                err = e;
            }
        }
        let r = if err != 0 {
            -(err as i64)
        } else {
            if fd == 1 {
                self.eintr_run = 0;
                self.plan.stdout_space -= (n as u64).min(self.plan.stdout_space);
                self.stdout.extend_from_slice(&buf[..n])
            } else {
                self.stderr.extend_from_slice(&buf[..n])
            }
            n as i64
        };
        self.event(&format!("stdio {} {} -> {}", fd, buf.len(), r));
        r
    }

    pub fn lseek(&mut self, fd: i32, off: i64, whence: i32) -> i64 {
        self.step();
        let o = match self.ofd(fd) {
            Ok(o) => o,
            Err(e) => return e,
        };
        let len = match self.inodes[self.ofds[o].ino].node {
            Node::File(ref d) => d.len() as i64,
            _ => 0,
        };
        let n = match whence {
            libc::SEEK_SET => off,
            libc::SEEK_CUR => self.ofds[o].off as i64 + off,
            libc::SEEK_END => len + off,
            _ => return -(libc::EINVAL as i64),
        };
        if n < 0 {
            return -(libc::EINVAL as i64);
        }
        self.ofds[o].off = n as u64;
        self.event(&format!("lseek {} -> {}", fd, n));
        n
    }

    pub fn truncate(&mut self, ino: usize, path: &[u8], len: i64) -> i64 {
        if self.fault(&[F::MetaFail]).is_some() {
            return -(libc::EIO as i64);
        }
        if len < 0 || len > 1 << 30 {
            return -(libc::EINVAL as i64);
        }
        if self.crash_now().is_some() {
            self.die()
        }
        self.mutate("set length", path);
        self.inodes[ino].dirty = true;
        if let Node::File(ref mut d) = self.inodes[ino].node {
            d.resize(len as usize, 0);
            0
        } else {
            -(libc::EINVAL as i64)
        }
    }
    pub fn ftruncate(&mut self, fd: i32, len: i64) -> i64 {
        self.step();
        let r = match self.ofd(fd) {
            Ok(o) => {
                let (i, p) = (self.ofds[o].ino, self.ofds[o].path.clone());
                if self.ofds[o].flags & libc::O_ACCMODE == libc::O_RDONLY {
                    -(libc::EINVAL as i64)
                } else {
                    self.truncate(i, &p, len)
                }
            }
            Err(e) => e,
        };
        self.event(&format!("ftruncate {} {} -> {}", fd, len, r));
        r
    }

    pub fn fsync(&mut self, fd: i32) -> i64 {
        self.step();
        let r = match self.ofd(fd) {
            Ok(o) => {
                if self.fault(&[F::SyncFail]).is_some() {
                    -(libc::EIO as i64)
                } else {
                    let i = self.ofds[o].ino;
                    self.inodes[i].dirty = false;
                    0
                }
            }
            Err(e) => e,
        };
        self.event(&format!("fsync {} -> {}", fd, r));
        r
    }

    /// (inode, mode bits, size)
    pub fn stat(&mut self, what: Result<&[u8], i32>, follow: bool) -> Result<(usize, u32, u64, u64), i64> {
        self.step();
        let r = self.stat_(what, follow);
        let w = match what {
            Ok(p) => show(p),
            Err(fd) => fd.to_string(),
        };
        match r {
            Ok(x) => self.event(&format!("stat {} -> {:o} {}", w, x.1, x.2)),
            Err(e) => self.event(&format!("stat {} -> {}", w, e)),
        }
        r
    }
    fn stat_(&mut self, what: Result<&[u8], i32>, follow: bool) -> Result<(usize, u32, u64, u64), i64> {
        let f = self.fault(if what.is_ok() { &[F::StatFail] } else { &[F::StatSize, F::StatFail] });
        if f == Some(F::StatFail) {
            return Err(-(libc::EIO as i64));
        }
        let i = match what {
            Ok(p) => self.lookup(p, follow).map_err(|e| -(e as i64))?.1,
            Err(fd) => self.ofds[self.ofd(fd)?].ino,
        };
        let nd = &self.inodes[i];
        let (t, mut size) = match nd.node {
            Node::File(ref d) => (libc::S_IFREG, d.len() as u64),
            Node::Dir => (libc::S_IFDIR, 4096),
            Node::Symlink(ref t) => (libc::S_IFLNK, t.len() as u64),
        };
        if f == Some(F::StatSize) && t == libc::S_IFREG {
            // as on file systems that do not know sizes in advance
            size = 0;
        }
        Ok((i, t | nd.mode, size, nd.mtime))
    }

    pub fn rename(&mut self, a: &[u8], b: &[u8], noreplace: bool) -> i64 {
        self.step();
        let r = self.rename_(a, b, noreplace);
        self.event(&format!("rename {} {} -> {}", show(a), show(b), r));
        r
    }
    fn rename_(&mut self, a: &[u8], b: &[u8], noreplace: bool) -> i64 {
        if self.fault(&[F::MetaFail]).is_some() {
            return -(libc::EIO as i64);
        }
        let (pa, ia) = match self.lookup(a, false) {
            Ok(x) => x,
            Err(e) => return -(e as i64),
        };
        let pb = match self.resolve(b, false) {
            Ok(x) => x,
            Err(e) => return -(e as i64),
        };
        if !self.names.contains_key(&parent(&pb)) {
            return -(libc::ENOENT as i64);
        }
        if let Some(ib) = self.names.get(&pb) {
            if noreplace {
                return -(libc::EEXIST as i64);
            }
            if *ib == ia {
                return 0;
            }
            let (da, db) = (self.inodes[ia].node == Node::Dir, self.inodes[*ib].node == Node::Dir);
            if db && !da {
                return -(libc::EISDIR as i64);
            }
            if da && !db {
                return -(libc::ENOTDIR as i64);
            }
        }
        if self.crash_now().is_some() {
            self.die()
        }
        self.mutate("rename from", &pa);
        self.mutate("rename to", &pb);
        let mut pre = pa.clone();
        pre.push(b'/');
        let moved: Vec<(Vec<u8>, usize)> =
            self.names.iter().filter(|(p, _)| **p == pa || p.starts_with(&pre)).map(|(p, i)| (p.clone(), *i)).collect();
        for (p, _) in &moved {
            self.names.remove(p);
        }
        for (p, i) in moved {
            let mut q = pb.clone();
            q.extend_from_slice(&p[pa.len()..]);
            self.names.insert(q, i);
        }
        0
    }

    pub fn unlink(&mut self, p: &[u8], dir: bool) -> i64 {
        self.step();
        let r = self.unlink_(p, dir);
        self.event(&format!("unlink {} -> {}", show(p), r));
        r
    }
    fn unlink_(&mut self, p: &[u8], dir: bool) -> i64 {
        if self.fault(&[F::MetaFail]).is_some() {
            return -(libc::EIO as i64);
        }
        let (pp, i) = match self.lookup(p, false) {
            Ok(x) => x,
            Err(e) => return -(e as i64),
        };
        let isdir = self.inodes[i].node == Node::Dir;
        if isdir != dir {
            return -(if dir { libc::ENOTDIR } else { libc::EISDIR } as i64);
        }
        if dir {
            let mut pre = pp.clone();
            pre.push(b'/');
            if self.names.keys().any(|x| x.starts_with(&pre)) {
                return -(libc::ENOTEMPTY as i64);
            }
        }
        if self.crash_now().is_some() {
            self.die()
        }
        self.mutate("remove", &pp);
        self.names.remove(&pp);
        0
    }

    pub fn mknode(&mut self, p: &[u8], node: Node, op: &'static str) -> i64 {
        self.step();
        let r = self.mknode_(p, node, op);
        self.event(&format!("{} {} -> {}", op, show(p), r));
        r
    }
    fn mknode_(&mut self, p: &[u8], node: Node, op: &'static str) -> i64 {
        if self.fault(&[F::MetaFail]).is_some() {
            return -(libc::EIO as i64);
        }
        let pp = match self.resolve(p, false) {
            Ok(x) => x,
            Err(e) => return -(e as i64),
        };
        if self.names.contains_key(&pp) {
            return -(libc::EEXIST as i64);
        }
        match self.names.get(&parent(&pp)).map(|i| &self.inodes[*i].node) {
            Some(Node::Dir) => (),
            Some(_) => return -(libc::ENOTDIR as i64),
            None => return -(libc::ENOENT as i64),
        }
        if self.crash_now().is_some() {
            self.die()
        }
        self.mutate(op, &pp);
        self.add(&pp, node);
        0
    }

    pub fn link(&mut self, a: &[u8], b: &[u8]) -> i64 {
        self.step();
        let i = match self.lookup(a, false) {
            Ok(x) => x.1,
            Err(e) => return -(e as i64),
        };
        let pb = match self.resolve(b, false) {
            Ok(x) => x,
            Err(e) => return -(e as i64),
        };
        if self.names.contains_key(&pb) {
            return -(libc::EEXIST as i64);
        }
        if self.crash_now().is_some() {
            self.die()
        }
        self.mutate("link", &pb);
        self.names.insert(pb, i);
        0
    }

    pub fn realpath(&mut self, p: &[u8]) -> Result<Vec<u8>, i64> {
        self.step();
        let r = if self.fault(&[F::StatFail]).is_some() {
            Err(-(libc::EIO as i64))
        } else {
            self.lookup(p, true).map(|x| x.0).map_err(|e| -(e as i64))
        };
        self.event(&format!("realpath {} -> {:?}", show(p), r.as_ref().map(|x| show(x))));
        r
    }

    pub fn readlink(&mut self, p: &[u8]) -> Result<Vec<u8>, i64> {
        self.step();
        match self.lookup(p, false) {
            Ok((_, i)) => match self.inodes[i].node {
                Node::Symlink(ref t) => Ok(t.clone()),
                _ => Err(-(libc::EINVAL as i64)),
            },
            Err(e) => Err(-(e as i64)),
        }
    }

    pub fn list(&mut self, p: &[u8]) -> Result<Vec<(Vec<u8>, u8)>, i64> {
        self.step();
        self.event(&format!("opendir {}", show(p)));
        let (pp, i) = self.lookup(p, true).map_err(|e| -(e as i64))?;
        if self.inodes[i].node != Node::Dir {
            return Err(-(libc::ENOTDIR as i64));
        }
        let mut pre = pp.clone();
        if pre != b"/" {
            pre.push(b'/');
        }
        let mut v = vec![];
        for (n, i) in &self.names {
            if n.len() > pre.len() && n.starts_with(&pre) && !n[pre.len()..].contains(&b'/') {
                let t = match self.inodes[*i].node {
                    Node::File(_) => libc::DT_REG,
                    Node::Dir => libc::DT_DIR,
                    Node::Symlink(_) => libc::DT_LNK,
                };
                v.push((n[pre.len()..].to_vec(), t));
            }
        }
        // directory order is arbitrary
        if v.len() > 1 {
            let r = below(v.len() as u32) as usize;
            v.rotate_left(r);
        }
        Ok(v)
    }

    pub fn dup(&mut self, fd: i32) -> i64 {
        match self.ofd(fd) {
            Ok(o) => {
                self.ofds[o].refs += 1;
                let n = self.next_fd;
                self.next_fd += 1;
                self.fds.insert(n, o);
                n as i64
            }
            Err(e) => e,
        }
    }

    /// after a crash of the machine: of files changed since the last sync, only a prefix survives
    pub fn lose_unsynced(&mut self) {
        for i in 0..self.inodes.len() {
            if !self.inodes[i].dirty {
                continue;
            }
            self.inodes[i].dirty = false;
            let len = match self.inodes[i].node {
                Node::File(ref d) => d.len(),
                _ => continue,
            };
            if len == 0 {
                continue;
            }
            let lost = below(len as u32 + 1) as usize;
            if let Node::File(ref mut d) = self.inodes[i].node {
                d.truncate(len - lost);
            }
            if lost > 0 {
                self.count("fault.lost_unsynced");
                self.event(&format!("lost {} bytes", lost));
            }
        }
    }
}

pub fn join(c: &[Vec<u8>]) -> Vec<u8> {
    if c.is_empty() {
        return b"/".to_vec();
    }
    let mut v = vec![];
    for x in c {
        v.push(b'/');
        v.extend_from_slice(x);
    }
    v
}

pub fn parent(p: &[u8]) -> Vec<u8> {
    match p.iter().rposition(|c| *c == b'/') {
        Some(0) | None => b"/".to_vec(),
        Some(i) => p[..i].to_vec(),
    }
}
