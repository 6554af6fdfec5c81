//! S17: operations touch only the file they were given and release everything.
use super::doc::{kind, load, parse, size, Loaded};
use super::edits;
use super::s09::{damage, use_it};
use super::*;
use crate::choice::{below, chance, pick, small};
use crate::ensure;
use crate::gen;
use crate::kernel::{k, show, Node, Plan};
use crate::run::{op, R};
use crate::util::clip;
use kicad_parse_gen as kpg;
use kicad_parse_gen::checkfix::{CheckFix, Config};
use std::path::Path;

pub const PROP: Prop = Prop {
    id: "S17",
    run,
    quick: 100_000,
    thorough: 1_500_000,
    directed: &[],
    how: "One evaluation is one simulated run: 1-8 operations of every kind (reading, identifying, parsing, listing and searching sheets, looking up, editing, checking, fixing, expanding, printing, saving) on a stored, possibly damaged document among bystander files, under drawn faults and with a working or failing standard output; after each one the file system, the changes made or tried, the open descriptors, the standard output, the working directory and the environment are inspected.",
    nontrivial: "a fault fired, standard output would have failed, or the document is damaged.",
    assumptions: &["A save that failed may leave a new file behind.", "Standard error is not judged."],
};

/// the files that are not left-overs of failed saves
type Known = std::cell::RefCell<std::collections::BTreeSet<Vec<u8>>>;

struct Watch<'a> {
    known: &'a Known,
    before: std::collections::BTreeMap<Vec<u8>, Node>,
    mutations: usize,
    env: Vec<(std::ffi::OsString, std::ffi::OsString)>,
}
fn env() -> Vec<(std::ffi::OsString, std::ffi::OsString)> {
    std::env::vars_os().collect()
}
fn watch(known: &Known) -> Watch<'_> {
    Watch { known, before: k().snapshot(), mutations: k().mutations.len(), env: env() }
}
impl Watch<'_> {
    /// `file`: what may change
    fn judge(&self, what: &str, file: Option<&str>, ok: bool) -> R {
        let kn = k();
        ensure!(kn.fds.is_empty(), "leak", "{} left {} of its files open", what, kn.fds.len());
        ensure!(kn.stdout.is_empty(), "stdout", "{} wrote to standard output: {:?}", what, clip(&show(&kn.stdout), 100));
        ensure!(kn.cwd == crate::kernel::CWD, "directory", "{} changed the working directory", what);
        ensure!(env() == self.env, "environment", "{} changed the environment", what);
        let now = kn.snapshot();
        match file {
            None => {
                if let Some(m) = kn.mutations.get(self.mutations) {
                    ensure!(false, "changed", "{} did '{}' to {}", what, m.op, show(&m.path));
                }
                ensure!(now == self.before, "changed", "{} changed the file system", what);
            }
            Some(f) => {
                let real = kn.resolve(f.as_bytes(), true).unwrap_or_default();
                let mine = |p: &[u8]| p == f.as_bytes() || p == &real[..];
                for (p, n) in &self.before {
                    if !mine(p) && self.known.borrow().contains(p) {
                        ensure!(now.get(p) == Some(n), "changed", "{} {} changed or removed {}", what, f, show(p));
                    }
                }
                if ok {
                    self.known.borrow_mut().extend(vec![f.as_bytes().to_vec(), real.clone()])
                }
                for p in now.keys() {
                    if !mine(p) && ok {
                        ensure!(self.before.contains_key(p), "left_behind", "{} {} left {} behind", what, f, show(p));
                    }
                }
            }
        }
        Ok(())
    }
}

fn stdout_state(m: Mode) {
    if m != Mode::Clean && chance(1, 3) {
        k().plan.stdout_errno = *pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO]);
        probe("stdout_failing");
        nontrivial()
    }
}

fn run() -> R {
    let kind = kind();
    let m = mode();
    let doc = edits::doc(kind, size());
    let mut bytes = doc.render().into_bytes();
    if chance(1, 3) {
        let other = bytes.clone();
        for _ in 0..1 + small(2) {
            damage(&mut bytes, &other)
        }
        nontrivial();
        probe("damaged")
    }
    let dir = *pick(&["/sim/w", "/sim/cwd", "/tmp", "/sim/w/a b"]);
    let path = format!("{}/doc.{}", dir, kind.ext());
    k().put(&path, &bytes);
    for b in ["doc", "doc.tmp", "doc.bak", "doc.new", ".doc.swp"] {
        k().put(&format!("{}/{}", dir, b), b.as_bytes())
    }
    for b in [".tmp", "~", ".bak", ".new", ".old", ".lock"] {
        k().put(&format!("{}{}", path, b), b.as_bytes())
    }
    k().put("/tmp/x", b"x");
    // names for the same file
    k().add(format!("{}/link", dir).as_bytes(), Node::Symlink(path.clone().into_bytes()));
    let name = |p: &str| match below(6) {
        0 => format!("{}/link", dir),
        1 if dir == "/sim/cwd" => format!("doc.{}", kind.ext()),
        _ => p.to_string(),
    };
    let mut x: Option<Loaded> = None;
    let mk = mark();
    let known = Known::new(k().snapshot().keys().cloned().collect());
    for _ in 0..1 + below(8) {
        let w = watch(&known);
        plan(m);
        stdout_state(m);
        let what = below(8);
        match (what, x.is_some()) {
            (0, _) => {
                let p = name(&path);
                let _ = op("read_file", || kpg::read_file(Path::new(&p)))?;
                w.judge("reading text", None, true)?
            }
            (1, _) | (2, false) | (3, false) | (4, false) => {
                let p = if chance(1, 10) { format!("{}/missing", dir) } else { name(&path) };
                let e = below(kind.entries());
                let r = op("load", || load(kind, &p, e))?;
                w.judge("reading a document", None, true)?;
                if let Ok(y) = r {
                    x = Some(y)
                }
            }
            (5, _) | (6, false) | (7, false) => {
                let t = String::from_utf8_lossy(&bytes).into_owned();
                let p = if chance(1, 2) { Some(Path::new(&path)) } else { None };
                let r = op("parse", || parse(kind, &t, p))?;
                w.judge("parsing", None, true)?;
                if let Ok(y) = r {
                    x = Some(y)
                }
            }
            (2, true) | (6, true) => {
                let p = match below(4) {
                    0 => format!("{}/new.{}", dir, kind.ext()),
                    1 => format!("{}/nowhere/new", dir),
                    _ => name(&path),
                };
                let y = x.as_ref().unwrap();
                let was = k().get(&p).is_some();
                let r = op("save", || y.save(&p))?;
                w.judge("saving", Some(&p), r.is_ok())?;
                ensure!(!was || k().get(&p).is_some(), "removed", "saving removed {}", p);
                probe(if r.is_ok() { "saved" } else { "save_failed" })
            }
            (3, true) => {
                let y = x.as_mut().unwrap();
                op("use", || use_it(y))?;
                w.judge("looking things up", None, true)?
            }
            (4, true) => {
                let y = x.as_ref().unwrap();
                let _ = op("print", || y.text())?;
                op("debug", || gen::dbg(&y.dbg()).len())?;
                w.judge("printing", None, true)?
            }
            _ => {
                let y = x.as_mut().unwrap();
                if let Loaded::Fp(ref mut f) = *y {
                    if chance(1, 3) {
                        op("fix", || f.fix(&Config::klc()))?;
                        w.judge("fixing", None, true)?;
                        continue;
                    }
                }
                let e = super::s09::an_edit(y);
                op(&edits::name(&e), || edits::on_loaded(y, &e))?;
                w.judge("editing", None, true)?
            }
        }
        k().plan = Plan::none();
    }
    if mk.soft() + mk.hard() > 0 {
        nontrivial()
    }
    Ok(())
}
