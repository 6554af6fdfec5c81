//! S18: changing net names.
use super::doc::{clone_layout, load, Doc, Kind, Loaded};
use super::hist::{save_retry, text_is};
use super::*;
use crate::choice::{below, chance, pick, small};
use crate::ensure;
use crate::gen::{self, footprint as gfp, layout as gpcb, net_name, text};
use crate::kernel::{k, Crash};
use crate::run::{life, op, viol, R};
use crate::util::{clip, diff};
use kicad_parse_gen::footprint;
use kicad_parse_gen::layout::{Element, Layout, Net, NetClass, NetName};
use kicad_parse_gen::KicadError;
use std::cell::{Cell, RefCell};

pub const PROP: Prop = Prop {
    id: "S18",
    run,
    quick: 40000,
    thorough: 1_000_000,
    directed: &[],
    how: "One evaluation is one simulated run: a layout with many net uses (or a footprint) goes through 1-3 program lives, each applying 1-3 net name changes with drawn functions (suffix, numbering, renaming, block replacing, rejecting at a drawn call with a drawn error) and saving it under drawn faults with retries. Calls, errors, names and everything else are compared with the model after every change, the stored file after every save and the document after every restart.",
    nontrivial: "at least one net name changed or a name was rejected.",
    assumptions: &["The order in which the uses are visited is not prescribed."],
};

/// every use of a net name, in document order
fn names(l: &mut Layout) -> Vec<&mut String> {
    let mut v: Vec<&mut String> = vec![];
    for e in &mut l.elements {
        match *e {
            Element::Net(ref mut n) => v.push(&mut n.name.0),
            Element::NetClass(ref mut c) => v.extend(c.nets.iter_mut().map(|n| &mut n.0)),
            Element::Module(ref mut m) => v.extend(pad_names(m)),
            Element::Zone(ref mut z) => v.push(&mut z.net_name.0),
            _ => (),
        }
    }
    v
}
fn pad_names(m: &mut footprint::Module) -> Vec<&mut String> {
    let mut v = vec![];
    for e in &mut m.elements {
        if let footprint::Element::Pad(ref mut p) = *e {
            if let Some(ref mut n) = p.net {
                v.push(&mut n.name.0)
            }
        }
    }
    v
}

#[derive(Clone, Debug)]
enum Fun {
    Same,
    Suffix(String),
    /// the name becomes the number of the call
    Number(u32),
    Rename(String, String),
    Block(String, String),
    Const(String),
    /// only names that begin with a slash
    Slash,
    /// another component in the names that KiCad made from a component and a pad
    Unnamed(String),
}
/// the parts of a name that KiCad made
fn made(s: &str) -> Option<(&str, &str)> {
    let t = s.strip_prefix("Net-(")?.strip_suffix(')')?;
    let (a, b) = t.split_once('-')?;
    if a.contains(|c| "-()".contains(c)) || b.contains(|c| "-()".contains(c)) {
        None
    } else {
        Some((a, b))
    }
}
#[derive(Clone, Debug)]
enum Change {
    /// with a rejection at this call
    Update(Fun, Option<u32>, u32),
    Change(String, String),
    /// rename in a footprint (of the layout)
    Module(u32, String, String),
}

fn apply(f: &Fun, s: &str, call: u32) -> String {
    match *f {
        Fun::Same => s.to_string(),
        Fun::Suffix(ref x) => format!("{}{}", s, x),
        Fun::Number(t) => format!("N{}-{}", t, call),
        Fun::Rename(ref a, ref b) => {
            if s == a {
                b.clone()
            } else {
                s.to_string()
            }
        }
        Fun::Block(ref a, ref b) => s.replace(&format!("/{}/", a), &format!("/{}/", b)),
        Fun::Const(ref x) => x.clone(),
        Fun::Unnamed(ref x) => match made(s) {
            Some((_, p)) => format!("Net-({}-{})", x, p),
            None => s.to_string(),
        },
        Fun::Slash => {
            if s.starts_with('/') {
                format!("/x{}", s)
            } else {
                s.to_string()
            }
        }
    }
}
fn error(n: u32) -> KicadError {
    match n {
        0 => KicadError::Other("no such net: \u{1F600}".into()),
        1 => KicadError::Parse("rejected".into()),
        2 => KicadError::Io(std::io::Error::from_raw_os_error(libc::EIO)),
        3 => KicadError::EnvVar(std::env::VarError::NotPresent),
        _ => KicadError::Other(String::new()),
    }
}

fn change(d: &Doc) -> Change {
    let a = net_name();
    let b = if chance(1, 2) { net_name() } else { text() };
    let pcb = matches!(*d, Doc::Pcb(_));
    if !pcb || chance(1, 5) {
        return Change::Module(below(6), a, b);
    }
    if chance(1, 4) {
        return Change::Change(a, b);
    }
    let f = match below(10) {
        8 | 9 => Fun::Unnamed(pick(&["R1", "R101", "U3", "Pad", "", "C7 x"]).to_string()),
        0 => Fun::Same,
        1 => Fun::Suffix(text()),
        2 | 3 => Fun::Number(below(1 << 20)),
        4 => Fun::Rename(a, b),
        5 => Fun::Block(pick(&["top", "a", "b", "SIG", ""]).to_string(), pick(&["new", "top", "x/y", ""]).to_string()),
        6 => Fun::Const(b),
        _ => Fun::Slash,
    };
    let at = if chance(1, 3) { Some(below(14)) } else { None };
    Change::Update(f, at, below(5))
}

fn document() -> Doc {
    if chance(1, 6) {
        let mut m = gfp::module(3);
        for _ in 0..small(6) {
            m.elements.push(footprint::Element::Pad(pad()))
        }
        return Doc::Fp(m);
    }
    let mut l = gpcb::layout(*pick(&[1, 3, 8]), 3);
    for _ in 0..small(10) {
        let e = match below(4) {
            0 => Element::Net(Net { num: below(40) as i64, name: NetName(net_name()) }),
            1 => {
                let mut c = gpcb::net_class();
                c.nets = (0..small(4)).map(|_| NetName(net_name())).collect();
                Element::NetClass(c)
            }
            2 => {
                let mut m = gfp::module(2);
                for _ in 0..small(5) {
                    m.elements.push(footprint::Element::Pad(pad()))
                }
                Element::Module(m)
            }
            _ => Element::Zone(gpcb::zone()),
        };
        let at = below(l.elements.len() as u32 + 1) as usize;
        l.elements.insert(at, e)
    }
    Doc::Pcb(l)
}
fn pad() -> footprint::Pad {
    let mut p = gfp::pad();
    if chance(3, 4) {
        p.net = Some(footprint::Net { num: below(40) as i64, name: NetName(net_name()) })
    }
    p
}

/// apply to the loaded document and judge; the model follows
fn step(d: &mut Doc, x: &mut Loaded, c: &Change) -> R {
    let was = d.dbg();
    match (c, &mut *d, &mut *x) {
        (&Change::Module(_, ref a, ref b), &mut Doc::Fp(ref mut m), &mut Loaded::Fp(ref mut y)) => {
            op("rename_net", || y.rename_net(a, b))?;
            for n in pad_names(m) {
                if n == a {
                    *n = b.clone()
                }
            }
        }
        (&Change::Module(i, ref a, ref b), &mut Doc::Pcb(ref mut m), &mut Loaded::Pcb(ref mut y)) => {
            let mut i1 = i;
            for e in &mut y.elements {
                if let Element::Module(ref mut m) = *e {
                    if i1 == 0 {
                        op("rename_net", || m.rename_net(a, b))?;
                        break;
                    }
                    i1 -= 1
                }
            }
            let mut i1 = i;
            for e in &mut m.elements {
                if let Element::Module(ref mut m) = *e {
                    if i1 == 0 {
                        for n in pad_names(m) {
                            if n == a {
                                *n = b.clone()
                            }
                        }
                        break;
                    }
                    i1 -= 1
                }
            }
        }
        (&Change::Change(ref a, ref b), &mut Doc::Pcb(ref mut m), &mut Loaded::Pcb(ref mut y)) => {
            op("change_net_name", || y.change_net_name(a, b))?;
            for n in names(m) {
                if n == a {
                    *n = b.clone()
                }
            }
        }
        (&Change::Update(ref f, at, e), &mut Doc::Pcb(ref mut m), &mut Loaded::Pcb(ref mut y)) => {
            // numbers that no net has yet
            let mut f = f.clone();
            if let Fun::Number(ref mut t) = f {
                while names(m).iter().any(|n| n.starts_with(&format!("N{}-", t))) {
                    *t += 1
                }
            }
            let f = &f;
            let calls = Cell::new(0u32);
            let seen = RefCell::new(vec![]);
            let odd: RefCell<Vec<String>> = RefCell::new(vec![]);
            let r = op("update_net_names", || {
                y.update_net_names(|n| {
                    let c = calls.get();
                    calls.set(c + 1);
                    seen.borrow_mut().push(n.0.clone());
                    if at == Some(c) {
                        return Err(error(e));
                    }
                    match *f {
                        Fun::Rename(ref a, ref b) => n.rename(a, b),
                        Fun::Unnamed(ref b) => {
                            let is = made(&n.0).map(|(a, p)| (a.to_string(), p.to_string()));
                            // what else begins like one is not judged
                            if is.is_some() || !n.0.starts_with("Net-(") {
                                let name = n.0.clone();
                                let found = n.is_unnamed_net();
                                if found != is {
                                    odd.borrow_mut().push(format!("{} is taken apart into {:?}", name, found))
                                }
                                if n.set_unnamed_net(b).is_ok() != is.is_some() {
                                    odd.borrow_mut().push(format!("changing the component of {} {}", name, if is.is_some() { "failed" } else { "succeeded" }))
                                }
                            }
                        }
                        _ => n.0 = apply(f, &n.0, c),
                    }
                    Ok(())
                })
            })?;
            if let Some(o) = odd.into_inner().first() {
                return viol("names", o.clone());
            }
            let calls = calls.get();
            let total = names(m).len() as u32;
            let old: Vec<String> = names(m).into_iter().map(|s| s.clone()).collect();
            let mut after = clone_layout(y);
            let new: Vec<String> = names(&mut after).into_iter().map(|s| s.clone()).collect();
            ensure!(new.len() == old.len(), "uses", "{} uses of nets became {}", old.len(), new.len());
            // everything but the names is as before
            for (n, o) in names(&mut after).into_iter().zip(&old) {
                *n = o.clone()
            }
            let (p, q) = (gen::dbg(&*m), gen::dbg(&after));
            ensure!(p == q, "other", "changing net names changed something else: {}", clip(&diff(&p, &q), 300));
            let rejected = at.map(|a| a < total).unwrap_or(false);
            match r {
                Ok(()) => {
                    ensure!(!rejected, "swallowed", "the rejection at call {:?} of {} was not reported", at, total);
                    ensure!(calls == total, "calls", "{} calls for {} uses of nets", calls, total);
                }
                Err(ref g) => {
                    ensure!(rejected, "spurious", "changing net names failed: {}", g);
                    ensure!(format!("{:?}|{}", g, g) == format!("{:?}|{}", error(e), error(e)), "error", "the error was changed: {:?} instead of {:?}", g, error(e));
                    ensure!(calls == at.unwrap() + 1, "went_on", "{} calls, the one with number {} was rejected", calls, at.unwrap());
                    probe("rejected");
                    nontrivial();
                }
            }
            // each use was changed once, or not at all after a rejection
            let seen = seen.into_inner();
            let mut s1 = seen.clone();
            let mut s2 = old.clone();
            s1.sort();
            s2.sort();
            if !rejected {
                ensure!(s1 == s2, "names", "the function saw {:?} instead of {:?}", clip(&s1.join(","), 200), clip(&s2.join(","), 200));
            }
            if let Fun::Number(t) = *f {
                let tag = format!("N{}-", t);
                let mut used = vec![false; total as usize];
                for (o, n) in old.iter().zip(&new) {
                    let i = n.strip_prefix(&tag[..]).and_then(|x| x.parse::<usize>().ok());
                    match i {
                        Some(i) if i < used.len() && i < seen.len() => {
                            ensure!(!used[i], "twice", "two uses got the name of call {}", i);
                            ensure!(&seen[i] == o, "names", "call {} saw {} and changed {}", i, seen[i], o);
                            used[i] = true
                        }
                        _ => {
                            ensure!(rejected, "missed", "the use {} was not changed: {}", o, n);
                            ensure!(n == o, "names", "{} became {} although its change was rejected", o, n);
                        }
                    }
                }
                let n = used.iter().filter(|x| **x).count();
                ensure!(n as u32 == if rejected { at.unwrap() } else { total }, "missed", "{} uses changed by {} calls", n, calls);
            } else {
                let mut changed = 0;
                for (o, n) in old.iter().zip(&new) {
                    let w = apply(f, o, 0);
                    if rejected {
                        ensure!(n == o || n == &w, "names", "{} became {} instead of {}", o, n, w);
                        changed += (n != o) as u32
                    } else {
                        ensure!(n == &w, "names", "{} became {} instead of {}", o, n, w)
                    }
                }
                ensure!(changed <= calls, "names", "{} names changed by {} calls", changed, calls);
            }
            for (n, w) in names(m).into_iter().zip(&new) {
                *n = w.clone()
            }
        }
        _ => (),
    }
    if d.dbg() != was {
        nontrivial();
        probe("changed")
    }
    match d.check_loaded(x, None) {
        None => Ok(()),
        Some(e) => viol("differs", format!("after {:?}: {}", c, clip(&e, 400))),
    }
}

fn run() -> R {
    let mut d = document();
    let kind = d.kind();
    let path = format!("/sim/w/doc.{}", kind.ext());
    let m = mode();
    k().put(&path, d.render().as_bytes());
    for _ in 0..1 + small(2) {
        let changes: Vec<Change> = (0..1 + small(2)).map(|_| change(&d)).collect();
        let r = life(Crash::Never, || {
            let mut x = match op("load", || load(kind, &path, 0))? {
                Ok(x) => x,
                Err(e) => return viol("spurious", format!("loading failed: {}", e)),
            };
            let mut d = d.clone();
            if let Some(e) = d.check_loaded(&x, None) {
                return viol("differs", format!("after loading: {}", clip(&e, 400)));
            }
            for c in &changes {
                step(&mut d, &mut x, c)?
            }
            save_retry(&x, &path, m)?;
            let t = String::from_utf8(k().get(&path).unwrap_or_default()).unwrap_or_default();
            text_is(&d, &t, "stored document")?;
            // what the next life starts from: the names
            let mut v = vec![];
            let all: Vec<String> = match d {
                Doc::Pcb(ref mut l) => names(l).into_iter().map(|s| s.clone()).collect(),
                Doc::Fp(ref mut m) => pad_names(m).into_iter().map(|s| s.clone()).collect(),
                _ => vec![],
            };
            for s in all {
                v.extend_from_slice(&(s.len() as u32).to_le_bytes());
                v.extend_from_slice(s.as_bytes());
            }
            Ok(v)
        });
        let v = match r {
            Some(v) => v,
            None => return viol("harness", "life crashed".into()),
        };
        let mut at = 0;
        let mut next = || {
            let n = u32::from_le_bytes([v[at], v[at + 1], v[at + 2], v[at + 3]]) as usize;
            let s = String::from_utf8(v[at + 4..at + 4 + n].to_vec()).unwrap();
            at += 4 + n;
            s
        };
        match d {
            Doc::Pcb(ref mut l) => names(l).into_iter().for_each(|s| *s = next()),
            Doc::Fp(ref mut m) => pad_names(m).into_iter().for_each(|s| *s = next()),
            _ => (),
        }
    }
    Ok(())
}
