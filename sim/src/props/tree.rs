//! S11, S12, S13: sheet hierarchies.
use super::doc::{Doc, Loaded};
use super::edits;
use super::*;
use crate::choice::{below, chance, pick, small, weighted};
use crate::gen::lines;
use crate::gen::schematic as gsch;
use crate::gen::schematic::Sch;
use crate::kernel::{k, Kernel, Node, Plan};
use crate::run::{op, viol, R};
use crate::util::clip;
use kicad_parse_gen as kpg;
use kicad_parse_gen::schematic::{Component, Element, Schematic};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub const S11: Prop = Prop {
    id: "S11",
    run: run11,
    quick: 80000,
    thorough: 800_000,
    directed: &[],
    how: "One evaluation is one simulated run: a drawn sheet graph of 1-7 files (sometimes a chain of up to 130) over several directories, symbolic links and spellings of names, with missing, unreadable and damaged sheets; 1-4 listings with edits of the files between them, under drawn read faults and up to two replacements of sheet files during the listing. Each listing is compared with a reference walk over the model of the stored files.",
    nontrivial: "the hierarchy has at least two sheets and either a fault fired, a sheet is bad, or a file was replaced during the listing.",
    assumptions: &["A sheet reached through a symbolic link is named relative to the directory of the link; links to sheets stand in the directory of their target."],
};
pub const S12: Prop = Prop {
    id: "S12",
    run: run12,
    quick: 80000,
    thorough: 800_000,
    directed: &[],
    how: "As S11, with searches for references: present in one sheet, in several, in none, or a prefix or extension of a present one. The result must be the first component with that reference in listing order; a bad sheet that comes before it must give an error.",
    nontrivial: "the hierarchy has at least two sheets and either a fault fired, a sheet is bad, a file was replaced during the search, or the reference is found below the root.",
    assumptions: &["A sheet reached through a symbolic link is named relative to the directory of the link; links to sheets stand in the directory of their target."],
};
pub const S13: Prop = Prop {
    id: "S13",
    run: run13,
    quick: 80000,
    thorough: 800_000,
    directed: &[],
    how: "As S11 and S12 on graphs with loops through drawn spellings and links, on graphs that become cyclic or acyclic by a replacement during the call, and on graphs whose sheets are shared without a loop. Each call must end within 100000 simulated calls, without a panic or stack overflow, with the result of the reference walk.",
    nontrivial: "a loop is reachable, or a sheet is used more than once.",
    assumptions: &["The number of system calls and the stack of a process (8 MB) bound the work."],
};

#[derive(Clone)]
enum Stored {
    Good(Sch),
    /// readable, but not a schematic
    Bad(Vec<u8>),
    Dir,
    Missing,
}

const DIRS: &[&str] = &["/sim/w", "/sim/w/sub", "/sim/w/sub/deep", "/sim/w/x y", "/sim/cwd"];

fn dir_alias(d: &str) -> String {
    match d {
        "/sim/w" => *pick(&["/sim/w", "/sim/w/sub/..", "/sim/w/sub/up", "/sim//w/.", "/sim/w/ln/../sub/.."]),
        "/sim/w/sub" => *pick(&["/sim/w/sub", "/sim/w/ln", "/sim/w/./sub", "/sim/w/far/.."]),
        "/sim/w/sub/deep" => *pick(&["/sim/w/sub/deep", "/sim/w/far", "/sim/w/ln/deep"]),
        d => d,
    }
    .to_string()
}
fn rel(from: &str, to: &str) -> String {
    let a: Vec<&str> = from.split('/').filter(|c| !c.is_empty()).collect();
    let b: Vec<&str> = to.split('/').filter(|c| !c.is_empty()).collect();
    let mut n = 0;
    while n < a.len() && n < b.len() && a[n] == b[n] {
        n += 1
    }
    let mut v: Vec<&str> = vec![".."; a.len() - n];
    v.extend(&b[n..]);
    v.join("/")
}

struct World {
    /// canonical name
    paths: Vec<(String, String)>,
    files: BTreeMap<String, Stored>,
}

impl World {
    fn full(&self, i: usize) -> String {
        format!("{}/{}", self.paths[i].0, self.paths[i].1)
    }
    /// a name for file j in a sheet of file i
    fn spell(&self, i: usize, j: usize) -> String {
        let (ref d, ref n) = self.paths[j];
        // the names of a long chain add up
        if self.paths.len() > 100 && *d == self.paths[i].0 && !chance(1, 200) {
            return n.clone();
        }
        let name = if chance(1, 8) { format!("alias {}", n) } else { n.clone() };
        let dir = if chance(1, 3) { dir_alias(d) } else { d.clone() };
        let full = format!("{}/{}", dir, name);
        if chance(1, 6) {
            full
        } else {
            let r = rel(&self.paths[i].0, &full);
            if chance(1, 6) {
                format!("./{}", r)
            } else {
                r
            }
        }
    }
    fn store(&mut self, path: &str, s: Stored) {
        set(k(), path, &s);
        self.files.insert(path.to_string(), s);
    }
}

fn set(kn: &mut Kernel, path: &str, s: &Stored) {
    match *s {
        Stored::Good(_) => unreachable!(),
        Stored::Bad(ref b) => {
            kn.add(path.as_bytes(), Node::File(b.clone()));
        }
        Stored::Dir => {
            kn.add(path.as_bytes(), Node::Dir);
        }
        Stored::Missing => {
            kn.names.remove(path.as_bytes());
        }
    }
    kn.event(&format!("set {}", path));
}

fn bad(good: &Sch) -> Stored {
    match below(6) {
        0 => Stored::Missing,
        1 => Stored::Dir,
        2 => {
            let mut t = gsch::render_file(good).into_bytes();
            let at = below(t.len() as u32 + 1) as usize;
            t.insert(at, 0xff);
            Stored::Bad(t)
        }
        3 => Stored::Bad(Doc::gen(super::doc::Kind::Fp, 0).render().into_bytes()),
        4 => Stored::Bad(vec![]),
        _ => {
            let t = gsch::render_file(good);
            let end = t.rfind("$EndSCHEMATC").unwrap();
            let mut at = below(end as u32 + 8) as usize;
            while !t.is_char_boundary(at) {
                at -= 1
            }
            Stored::Bad(t[..at].as_bytes().to_vec())
        }
    }
}

/// the reference walk
struct Walk<'a> {
    files: &'a BTreeMap<String, Stored>,
    edits: &'a [Edit],
    /// the visit at which each edit is first seen
    cuts: Vec<u32>,
    visits: u32,
    cap: u32,
    want: Option<&'a str>,
    out: Vec<(Component, [i64; 4])>,
    uses: BTreeMap<String, u32>,
    looped: bool,
}
#[derive(Clone)]
struct Edit {
    path: String,
    to: Stored,
    bytes: Option<Vec<u8>>,
}
enum End {
    Bad,
    Found,
    Cap,
}

impl<'a> Walk<'a> {
    fn content(&self, path: &str) -> Option<&'a Stored> {
        let mut s = self.files.get(path);
        for (e, c) in self.edits.iter().zip(&self.cuts) {
            if *c <= self.visits && e.path == path {
                s = Some(&e.to)
            }
        }
        s
    }
    fn go(&mut self, s: &Sch, name: Option<&str>, stack: &mut Vec<Vec<u8>>) -> Result<(), End> {
        let mut rots = s.rots.iter();
        for e in &s.s.elements {
            if let Element::Component(ref c) = *e {
                let r = *rots.next().unwrap();
                match self.want {
                    None => self.out.push((c.clone(), r)),
                    Some(w) => {
                        if c.reference == w {
                            self.out.push((c.clone(), r));
                            return Err(End::Found);
                        }
                    }
                }
            }
        }
        for sh in &s.s.sheets {
            let n = match name {
                None => return Err(End::Bad),
                Some(n) => n,
            };
            let n = if sh.filename.starts_with('/') {
                sh.filename.clone()
            } else {
                match n.rfind('/') {
                    Some(i) => format!("{}/{}", &n[..i], sh.filename),
                    None => sh.filename.clone(),
                }
            };
            let p = match k().resolve(n.as_bytes(), true) {
                Ok(p) => p,
                Err(_) => return Err(End::Bad),
            };
            if stack.contains(&p) {
                self.looped = true;
                return Err(End::Bad);
            }
            let key = String::from_utf8(p.clone()).unwrap();
            let content = self.content(&key);
            self.visits += 1;
            *self.uses.entry(key).or_insert(0) += 1;
            if self.visits > self.cap {
                return Err(End::Cap);
            }
            let sub = match content {
                Some(Stored::Good(s)) => s,
                _ => return Err(End::Bad),
            };
            stack.push(p);
            self.go(sub, Some(&n), stack)?;
            stack.pop();
        }
        Ok(())
    }
}

struct Root {
    s: Sch,
    name: Option<String>,
}

type Answer = Result<Vec<(Component, [i64; 4])>, ()>;
struct Ans {
    a: Answer,
    visits: u32,
    shared: bool,
    looped: bool,
    below_root: bool,
    cap: bool,
}

fn answer(w: &World, root: &Root, eds: &[Edit], cuts: Vec<u32>, want: Option<&str>, cap: u32) -> Ans {
    let mut x = Walk { files: &w.files, edits: eds, cuts, visits: 0, cap, want, out: vec![], uses: BTreeMap::new(), looped: false };
    let mut stack = vec![];
    if let Some(ref n) = root.name {
        if let Ok((p, _)) = k().lookup(n.as_bytes(), true) {
            stack.push(p)
        }
    }
    let r = x.go(&root.s, root.name.as_deref(), &mut stack);
    let cap = matches!(r, Err(End::Cap));
    let below_root = x.visits > 0;
    let a = match r {
        Ok(()) if want.is_some() => Err(()),
        Ok(()) | Err(End::Found) => Ok(x.out),
        _ => Err(()),
    };
    Ans { a, visits: x.visits, shared: x.uses.values().any(|n| *n > 1), looped: x.looped, below_root, cap }
}

fn differ(want: &Answer, got: &Result<Vec<Component>, String>) -> Option<String> {
    match (want, got) {
        (Err(()), Err(_)) => None,
        (Err(()), Ok(v)) => Some(format!("an error was due, got {} components: {}", v.len(), refs(v.iter()))),
        (Ok(v), Err(e)) => Some(format!("{} components were due, got the error {}", v.len(), e)),
        (Ok(a), Ok(b)) => {
            if a.len() != b.len() {
                return Some(format!("{} components instead of {}: {} instead of {}", b.len(), a.len(), refs(b.iter()), refs(a.iter().map(|x| &x.0))));
            }
            for (x, y) in a.iter().zip(b) {
                let (p, q) = (gsch::dbg_component(&x.0), gsch::dbg_component(y));
                if p != q {
                    return Some(crate::util::diff(&p, &q));
                }
                let mut l = vec![];
                gsch::l_component(&x.0, &x.1, &mut l);
                if let Some(e) = lines::check_text(&l, &y.to_string()) {
                    return Some(e);
                }
            }
            None
        }
    }
}
fn refs<'a>(v: impl Iterator<Item = &'a Component>) -> String {
    v.take(12).map(|c| c.reference.clone()).collect::<Vec<_>>().join(",")
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    List,
    Search,
    Loops,
}

fn content(w: &World, i: usize, targets: &[usize]) -> Sch {
    let long = w.paths.len() > 8;
    let mut s = gsch::schematic(*pick(&[1, 3, 5]), &["x".to_string()]);
    s.s.sheets = targets.iter().map(|j| gsch::sheet(w.spell(i, *j))).collect();
    if !long || chance(1, if w.paths.len() > 100 { 300 } else { 20 }) {
        crate::gen::again(&mut s.s.sheets)
    }
    // something only at the end of a long chain
    if w.paths.len() > 100 && i + 1 == w.paths.len() {
        if let Some(c) = s.s.elements.iter_mut().filter_map(|e| if let Element::Component(ref mut c) = *e { Some(c) } else { None }).next() {
            c.reference = "END1".into()
        }
    }
    // a sheet without a file
    if chance(1, if long { 2000 } else { 80 }) {
        let at = below(s.s.sheets.len() as u32 + 1) as usize;
        s.s.sheets.insert(at, gsch::sheet(pick(&["", " ", ".", "..", "/", "./", "s.sch/", "none.sch"]).to_string()))
    }
    s
}

fn targets(i: usize, n: usize, chain: bool, back: bool) -> Vec<usize> {
    let mut v = vec![];
    if chain {
        if i + 1 < n {
            v.push(i + 1)
        }
    } else if i + 1 < n {
        for _ in 0..weighted(&[2, 5, 3, 1]) {
            // mostly near, so that the graph is deep
            let j = if chance(1, 2) { i + 1 } else { i + 1 + below((n - i - 1) as u32) as usize };
            v.push(j)
        }
    }
    if back {
        let at = below(v.len() as u32 + 1) as usize;
        v.insert(at, below(i as u32 + 1) as usize)
    }
    v
}

fn store_good(w: &mut World, path: &str, s: Sch) {
    let t = gsch::render_file(&s);
    k().put(path, t.as_bytes());
    w.files.insert(path.to_string(), Stored::Good(s));
}

fn run11() -> R {
    go(What::List)
}
fn run12() -> R {
    go(What::Search)
}
fn run13() -> R {
    go(What::Loops)
}

fn go(what: What) -> R {
    for d in DIRS {
        if !k().names.contains_key(d.as_bytes()) {
            k().add(d.as_bytes(), Node::Dir);
        }
    }
    k().add(b"/sim/w/ln", Node::Symlink(b"sub".to_vec()));
    k().add(b"/sim/w/sub/up", Node::Symlink(b"..".to_vec()));
    k().add(b"/sim/w/far", Node::Symlink(b"/sim/w/sub/deep".to_vec()));
    let chain = chance(1, 25);
    let n = if chain { 2 + below(if chance(1, 8) { 330 } else { 39 }) as usize } else { 1 + small(6) as usize };
    let mut w = World { paths: vec![], files: BTreeMap::new() };
    let flat = chance(1, if n > 100 { 2 } else { 3 });
    for i in 0..n {
        let d = if flat { DIRS[0] } else { *pick(DIRS) };
        let name = if chance(1, 2) { pick(&["s.sch", "S.sch", "t.sch", "sub.sch", "a b.sch"]).to_string() } else { String::new() };
        let name = if name.is_empty() || w.paths.iter().any(|p| p.0 == d && p.1 == name) {
            let ext = if chance(1, 10) { *pick(&["sch ", "SCH", "sch.sch", "sch~", "txt"]) } else { "sch" };
            format!("{}{}.{}", pick(&["s", "a b", "Ü", " s", ".s", "s\\"]), i, ext)
        } else {
            name
        };
        let alias = format!("{}/alias {}", d, name);
        k().add(alias.as_bytes(), Node::Symlink(name.as_bytes().to_vec()));
        w.paths.push((d.to_string(), name));
    }
    let loops = what == What::Loops && chance(3, 5);
    // one file has very many sheets
    let wide = if n > 1 && !chain && chance(1, 150) { n - 2 } else { n };
    for i in 0..n {
        let back = loops && chance(1, if chain { 20 } else { 3 });
        let mut t = targets(i, n, chain, back);
        if i == wide {
            probe("many_sheets");
            t.extend((0..10 + below(300)).map(|_| n - 1))
        }
        let s = content(&w, i, &t);
        let p = w.full(i);
        store_good(&mut w, &p, s);
    }
    // the root
    let rp = w.full(0);
    let (d, nm) = w.paths[0].clone();
    let name = match below(4) {
        0 => format!("{}/{}", dir_alias(&d), nm),
        1 => format!("{}/alias {}", d, nm),
        2 => rel("/sim/cwd", &rp),
        _ => rp.clone(),
    };
    let rs = match w.files[&rp] {
        Stored::Good(ref s) => s.clone(),
        _ => unreachable!(),
    };
    // not too big
    if answer(&w, &Root { s: rs.clone(), name: Some(name.clone()) }, &[], vec![], None, 350).cap {
        probe("too_big");
        return Ok(());
    }
    // bad sheets
    if what != What::Loops || chance(1, 5) {
        for _ in 0..weighted(&[3, 3, 1]) {
            let i = below(n as u32) as usize;
            if i == 0 {
                continue;
            }
            let p = w.full(i);
            let b = match w.files[&p] {
                Stored::Good(ref s) => bad(s),
                _ => continue,
            };
            w.store(&p, b);
        }
    }
    // load
    let loaded: Schematic = match below(3) {
        0 => match op("read_schematic", || kpg::read_schematic(Path::new(&name)))? {
            Ok(s) => s,
            Err(e) => return viol("spurious", format!("loading the root failed: {}", e)),
        },
        1 => match op("parse_file", || kpg::schematic::parse_file(Path::new(&name)))? {
            Ok(s) => s,
            Err(e) => return viol("spurious", format!("loading the root failed: {}", e)),
        },
        _ => {
            let t = gsch::render_file(&rs);
            match op("parse", || kpg::schematic::parse(Some(PathBuf::from(&name)), &t))? {
                Ok(s) => s,
                Err(e) => return viol("spurious", format!("loading the root failed: {}", e)),
            }
        }
    };
    let mut root = Root { s: rs, name: Some(name) };
    let mut x = Loaded::Sch(loaded);
    let m = mode();
    let mut anonymous = false;
    for _ in 0..1 + small(3) {
        // between the calls
        if !loops && chance(1, 5) {
            let mut d = Doc::Sch(root.s.clone());
            let e = edits::draw(&d);
            // queries among the edits are judged by S05
            edits::on_model(&mut d, &e);
            op("edit", || edits::on_loaded(&mut x, &e))?;
            if let Doc::Sch(s) = d {
                root.s = s
            }
        }
        if n > 1 && chance(1, 4) {
            let i = 1 + below(n as u32 - 1) as usize;
            let p = w.full(i);
            if chance(1, 4) {
                let s = content(&w, i, &[]);
                let b = bad(&s);
                w.store(&p, b)
            } else {
                let t = targets(i, n, chain, loops && chance(1, 3));
                let s = content(&w, i, &t);
                if let Stored::Dir = w.files[&p] {
                    w.store(&p, Stored::Missing)
                }
                store_good(&mut w, &p, s)
            }
        }
        if !anonymous && chance(1, 40) {
            anonymous = true;
            root.name = None;
            if let Loaded::Sch(ref mut s) = x {
                s.filename = None
            }
        }
        // replacements during the call
        let mut eds: Vec<Edit> = vec![];
        if n > 1 && chance(1, 3) {
            for _ in 0..1 + small(1) {
                let i = 1 + below(n as u32 - 1) as usize;
                let path = w.full(i);
                let t = targets(i, n, chain, what == What::Loops && chance(1, 2));
                let s = content(&w, i, &t);
                let e = if chance(1, 5) {
                    Edit { path, to: bad(&s), bytes: None }
                } else {
                    let b = gsch::render_file(&s).into_bytes();
                    Edit { path, to: Stored::Good(s), bytes: Some(b) }
                };
                eds.push(e)
            }
        }
        let all = answer(&w, &root, &[], vec![], None, 700);
        if all.cap {
            probe("too_big");
            return Ok(());
        }
        let search = match what {
            What::List => false,
            What::Search => true,
            What::Loops => chance(1, 2),
        };
        let want: Option<String> = if search { Some(reference(&all, &w, &root)) } else { None };
        let want = want.as_deref();
        let base = answer(&w, &root, &[], vec![], want, 700);
        // all possible answers
        let mut poss: Vec<Answer> = vec![];
        let mut loop_later = false;
        if !eds.is_empty() {
            let mut cap = false;
            let top = 30.min(base.visits + 20);
            let mut add = |cuts: Vec<u32>, poss: &mut Vec<Answer>| {
                let a = answer(&w, &root, &eds, cuts, want, 700);
                cap |= a.cap;
                loop_later |= a.looped;
                poss.push(a.a)
            };
            for c in 0..=top {
                if eds.len() == 1 {
                    add(vec![c], &mut poss);
                } else {
                    for c2 in c..=top {
                        add(vec![c, c2], &mut poss);
                    }
                }
            }
            for c in 0..1 << eds.len() {
                add((0..eds.len()).map(|i| if c >> i & 1 == 1 { 0 } else { u32::MAX }).collect(), &mut poss)
            }
            if cap || top == 30 {
                eds.clear();
                loop_later = false;
                poss.clear();
            }
        }
        poss.push(base.a);
        let edits_planned = eds.len();
        if !eds.is_empty() {
            let a = below(24);
            let mut at: Vec<u32> = vec![a, a + below(12)];
            let mut eds2 = eds.clone();
            let mut calls = 0;
            k().actor = Some(Box::new(move |kn: &mut Kernel| {
                while !eds2.is_empty() && at[0] <= calls {
                    at.remove(0);
                    let e = eds2.remove(0);
                    kn.count("probe.replaced_during_call");
                    match e.bytes {
                        Some(b) => {
                            kn.names.remove(e.path.as_bytes());
                            kn.add(e.path.as_bytes(), Node::File(b));
                        }
                        None => set(kn, &e.path, &e.to),
                    }
                    kn.event("replaced")
                }
                calls += 1;
            }));
        }
        plan(m);
        let mk = mark();
        let s = match x {
            Loaded::Sch(ref s) => s,
            _ => unreachable!(),
        };
        let r: Result<Vec<Component>, String> = match want {
            None => op("all_components", || s.all_components())?.map_err(|e| e.to_string()),
            Some(f) => op("component_by_reference", || s.component_by_reference(f))?.map(|c| vec![c]).map_err(|e| e.to_string()),
        };
        let (soft, hard) = (mk.soft(), mk.hard());
        k().plan = Plan::none();
        k().actor = None;
        for e in eds {
            // those that did not happen during the call happen now
            w.files.insert(e.path.clone(), e.to.clone());
            k().names.remove(e.path.as_bytes());
            match e.bytes {
                Some(b) => {
                    k().add(e.path.as_bytes(), Node::File(b));
                }
                None => set(k(), &e.path, &e.to),
            }
        }
        let interesting = match what {
            What::Loops => base.looped || loop_later || base.shared,
            _ => base.visits > 0 && (soft + hard > 0 || poss.iter().any(|a| a.is_err()) || edits_planned > 0 || (search && base.below_root)),
        };
        if interesting {
            nontrivial()
        }
        if base.looped {
            probe("loop")
        }
        if base.shared {
            probe("shared_sheet")
        }
        if hard > 0 && r.is_err() {
            probe("error_by_fault");
            continue;
        }
        if r.is_ok() {
            probe("answered");
            if chain && base.visits > 250 {
                probe("answered_deep")
            }
        }
        let mut why = None;
        for p in poss.iter().rev() {
            match differ(p, &r) {
                None => {
                    why = None;
                    break;
                }
                Some(e) => {
                    if why.is_none() {
                        why = Some(e)
                    }
                }
            }
        }
        if let Some(e) = why {
            let q = match want {
                None => "listing all components".to_string(),
                Some(f) => format!("searching for '{}'", f),
            };
            return viol("wrong", format!("{}: {} ({} possible answers)", q, clip(&e, 500), poss.len()));
        }
    }
    Ok(())
}

/// a reference to look for
fn reference(all: &Ans, w: &World, root: &Root) -> String {
    let mut v: Vec<String> = vec![];
    if let Ok(ref l) = all.a {
        v.extend(l.iter().map(|c| c.0.reference.clone()))
    }
    for s in w.files.values() {
        if let Stored::Good(ref s) = *s {
            for e in &s.s.elements {
                if let Element::Component(ref c) = *e {
                    v.push(c.reference.clone())
                }
            }
        }
    }
    let _ = root;
    if w.paths.len() > 100 && chance(1, 2) {
        return "END1".to_string();
    }
    let r = if v.is_empty() || chance(1, 8) { gsch::reference() } else { v[below(v.len() as u32) as usize].clone() };
    match weighted(&[10, 1, 1, 1, 1]) {
        0 => r,
        1 => format!("{}0", r),
        2 => r.chars().take(1).collect(),
        3 => r.to_lowercase(),
        _ => pick(&["", "R99", "U", "R1 "]).to_string(),
    }
}
