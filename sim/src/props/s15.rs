//! S15: concurrent callers.
use super::doc::{kind, load, size, Doc, Kind, Loaded};
use super::edits;
use super::s09::damage;
use super::hist::{session, text_is, Session};
use super::*;
use crate::choice::{below, chance, pick, small};
use crate::ensure;
use crate::gen;
use crate::kernel::{k, Plan};
use crate::run::{finish, op, R};
use crate::sched::run_threads;
use crate::util::clip;
use kicad_parse_gen as kpg;
use kicad_parse_gen::checkfix::{CheckFix, Config};
use kicad_parse_gen::BoundingBox;

pub const PROP: Prop = Prop {
    id: "S15",
    run,
    quick: 60000,
    thorough: 1_000_000,
    directed: &[],
    how: "One evaluation is one simulated run: 2-4 caller threads, each with its own file and own faults, load, compare, edit, print, check, search, save and reload it, some with a sheet that all of them use or with a damaged file besides; every system call, allocation, free, log record and lock operation, every access of a static variable and drawn basic blocks of the library are points at which a drawn other thread may continue. Each thread's results are compared with the model of its own file and with the answers it gets when it runs alone; the files are compared afterwards.",
    nontrivial: "at least one switch between threads during a call.",
    assumptions: &["Threads are switched at system calls, allocations, log records and lock operations, not between arbitrary instructions."],
};

struct Script {
    kind: Kind,
    path: String,
    start: Doc,
    sessions: Vec<(Doc, Session)>,
    end: Doc,
    /// questions asked before and after, answered alone first
    asked: bool,
    alone: String,
    /// a damaged file of its own, and what loading it alone gave
    bad: Option<(String, u32, String)>,
}

struct Carry(Script);
unsafe impl Send for Carry {}

/// everything that can be asked about a stored document
fn answers(kind: Kind, path: &str) -> R<String> {
    let r = op("ask", || -> Result<String, kpg::KicadError> {
        let x = load(kind, path, 0)?;
        let mut o = vec![];
        let c = Config::klc();
        match x {
            Loaded::Fp(mut m) => {
                o.push(gen::dbg(&m.check(&c)));
                o.push(gen::dbg(&m.bounding_box()));
                o.push(kpg::footprint::module_to_string(&m, 0)?);
                m.fix(&c);
                o.push(gen::dbg(&m));
            }
            Loaded::Pcb(mut l) => {
                o.push(gen::dbg(&l.bounding_box()));
                o.push(gen::dbg(&l.get_modules().iter().map(|m| &m.name).collect::<Vec<_>>()));
                l.update_net_names(|n| {
                    n.0.push('x');
                    Ok(())
                })?;
                o.push(kpg::layout::layout_to_string(&l, 0)?);
            }
            Loaded::Sch(s) => {
                o.push(gen::dbg(&s.bounding_box()));
                o.push(gen::dbg(&s.components()));
                o.push(format!("{:?}", s.all_components().map(|v| gen::dbg(&v)).map_err(|e| e.to_string())));
                for c in s.components() {
                    o.push(format!("{:?}", s.component_by_reference(&c.reference).map(|c| c.name).map_err(|e| e.to_string())));
                    o.push(format!("{:?}", kpg::reference_ord(&c.reference)));
                }
            }
            Loaded::Lib(l) => {
                for s in &l.symbols {
                    o.push(gen::dbg(&s.check(&c)));
                    o.push(s.to_string());
                }
            }
            Loaded::Tab(t) => {
                o.push(kpg::fp_lib_table::to_string(&t, 0)?);
                for l in &t.libs {
                    o.push(format!("{:?}", l.get_expanded_uri().map_err(|e| e.to_string())));
                }
            }
            Loaded::Pro(p) => o.push(p.data.clone()),
            Loaded::Unknown(_) => (),
        }
        Ok(o.join("\n"))
    })?;
    match r {
        Ok(s) => Ok(s),
        Err(e) => crate::run::viol("spurious", format!("asking about a {} failed: {}", kind.name(), clip(&e.to_string(), 300))),
    }
}

/// a damaged file gives the same document or the same error
fn answer_bad(kind: Kind, path: &str, entry: u32) -> R<String> {
    op("load damaged", || match load(kind, path, entry) {
        Ok(x) => x.dbg(),
        Err(e) => format!("error {}", e),
    })
}
fn try_bad(s: &Script) -> R {
    if let Some((ref p, entry, ref alone)) = s.bad {
        k().plan = Plan::none();
        let a = answer_bad(s.kind, p, entry)?;
        ensure!(&a == alone, "differs", "a damaged {} does not give what it gives alone: {}", s.kind.name(), clip(&crate::util::diff(alone, &a), 400));
    }
    Ok(())
}

fn body(s: &Script) -> R {
    try_bad(s)?;
    if s.asked {
        k().plan = Plan::none();
        let a = answers(s.kind, &s.path)?;
        ensure!(a == s.alone, "differs", "the answers about a {} are not those given alone: {}", s.kind.name(), clip(&crate::util::diff(&s.alone, &a), 400));
    }
    for (before, x) in &s.sessions {
        session(s.kind, before, x, &s.path)?;
    }
    try_bad(s)
}

fn without_sheets(mut s: gen::schematic::Sch) -> gen::schematic::Sch {
    s.s.sheets.clear();
    s
}

fn run() -> R {
    let n = 2 + small(2);
    let m = mode();
    let one = chance(1, 2);
    let all = chance(1, 2);
    let kinds = kind();
    let mut scripts = vec![];
    let shared = without_sheets(gen::schematic::schematic(4, &[]));
    k().put("/sim/w/shared.sch", gen::schematic::render_file(&shared).as_bytes());
    let a = gen::schematic::schematic(2, &["../shared.sch".to_string()]);
    k().put("/sim/w/lib/a.sch", gen::schematic::render_file(&a).as_bytes());
    for i in 0..n {
        let kind = if one { kinds } else { kind() };
        let path = match below(5) {
            // the same name in different directories, or different names in one directory
            0 => format!("/sim/w/{}/doc.{}", i, kind.ext()),
            1 => format!("{}/doc.{}", i, kind.ext()),
            2 => format!("../w/{}/../{}/doc.{}", i, i, kind.ext()),
            3 => format!("/sim/w/doc{}.{}", i, kind.ext()),
            _ => format!("/sim/w/doc.{}{}", kind.ext(), ["", "~", ".bak", ".x"][i as usize]),
        };
        if scripts.iter().any(|s: &Script| s.path == path) {
            continue;
        }
        let mut start = edits::doc(kind, size().min(1));
        let mut sheets = false;
        let real = match path.as_bytes()[0] {
            b'/' => path.clone(),
            b'.' => format!("/sim/w/{}/doc.{}", i, kind.ext()),
            _ => format!("/sim/cwd/{}", path),
        };
        if kind == Kind::Sch && chance(1, 4) {
            // a sheet that all of them use
            start = Doc::Sch(gen::schematic::schematic(6, &[pick(&["/sim/w/shared.sch", "/sim/w/../w/shared.sch", "/sim/w/lib/a.sch"]).to_string()]));
            probe("with_shared_sheet");
            sheets = true
        } else if kind == Kind::Sch && real.ends_with("/doc.sch") && chance(1, 2) {
            // a sheet with the same name everywhere
            let sub = gen::schematic::schematic(4, &[]);
            let dir = &real[..real.len() - "doc.sch".len()];
            k().put(&format!("{}sub.sch", dir), gen::schematic::render_file(&without_sheets(sub)).as_bytes());
            start = Doc::Sch(gen::schematic::schematic(6, &["sub.sch".to_string()]));
            probe("with_sub_sheet");
            sheets = true
        }
        k().put(&real, start.render().as_bytes());
        let mut model = start.clone();
        let mut sessions = vec![];
        let faulty = chance(1, 2);
        for _ in 0..1 + small(1) {
            let before = model.clone();
            let mut s = Session { entry: below(kind.entries()), edits: vec![], mode: if faulty { m } else { Mode::Clean }, reload: chance(1, 2) };
            for _ in 0..small(2) {
                let e = edits::draw(&model);
                if sheets && edits::name(&e).contains("Query") {
                    // looks into the sub sheets too
                    continue;
                }
                let out = edits::on_model(&mut model, &e);
                s.edits.push((e, model.clone(), out));
            }
            sessions.push((before, s));
        }
        let asked = if all { one } else { chance(1, 3) };
        let alone = if asked { answers(kind, &path)? } else { String::new() };
        ensure!(k().cwd == crate::kernel::CWD, "stray", "the working directory changed");
        let mut bad = None;
        if chance(1, 3) {
            let mut bytes = start.render().into_bytes();
            let other = bytes.clone();
            for _ in 0..1 + small(2) {
                damage(&mut bytes, &other)
            }
            let p = format!("/sim/w/bad{}.{}", i, kind.ext());
            k().put(&p, &bytes);
            let entry = below(kind.entries());
            let alone = answer_bad(kind, &p, entry)?;
            probe(if alone.starts_with("error ") { "damaged_fails" } else { "damaged_loads" });
            bad = Some((p, entry, alone))
        }
        scripts.push(Script { kind, path, start, sessions, end: model, asked, alone, bad });
    }
    let after: Vec<(String, Doc)> = scripts.iter().map(|s| (String::from_utf8(k().resolve(s.path.as_bytes(), true).unwrap()).unwrap(), s.end.clone())).collect();
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for s in scripts {
        let c = Carry(s);
        bodies.push(Box::new(move || {
            let c = c;
            let _ = &c.0.start;
            if let Err(v) = body(&c.0) {
                finish(Err(v))
            }
        }));
    }
    let rate = *pick(&[3, 1, 2, 10, 40]);
    let alloc = *pick(&[u64::MAX, 3, 20, 100, 1000]);
    let before = k().snapshot();
    let interrupts = *pick(&[0, 0, 10, 100]);
    let apart = 2 + below(12);
    run_threads(bodies, rate, alloc, interrupts, apart);
    for (path, d) in &after {
        let t = String::from_utf8(k().get(path).unwrap_or_default()).unwrap_or_default();
        text_is(d, &t, "file afterwards")?;
    }
    ensure!(k().cwd == crate::kernel::CWD, "stray", "the working directory changed");
    // nothing else changed
    let now = k().snapshot();
    for (p, x) in &now {
        if after.iter().all(|a| a.0.as_bytes() != &p[..]) {
            ensure!(before.get(p) == Some(x), "stray", "{} appeared or changed", crate::kernel::show(p));
        }
    }
    Ok(())
}
