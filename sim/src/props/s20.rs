//! S20: the command line tools succeed only with complete output and spare their inputs.
use super::doc::{kind, load, size, Doc, Kind, Loaded};
use super::edits::{on_model, Ed, PcbEd};
use super::s09::damage;
use super::*;
use crate::choice::{below, chance, pick, small, weighted};
use crate::ensure;
use crate::interpose::set_args;
use crate::kernel::{k, Crash, Kernel, Node, Plan};
use crate::run::{life, op, try_op, EXIT, R};
use crate::util::{clip, diff};
use kicad_parse_gen::checkfix::{CheckFix, CheckFixData, Config};
use kicad_parse_gen::Adjust;

pub const PROP: Prop = Prop {
    id: "S20",
    run,
    quick: 40000,
    thorough: 1_500_000,
    directed: &[],
    how: "One evaluation is one simulated run: each of 1-3 drawn command line tools is run as a process of its own on a drawn input (documents of the right and of another kind, damaged and cut-off ones, other text, nothing, a directory), under drawn faults of opening, reading, the free space of standard output, with short and interrupted writes, with replacements of the input while the tool runs, or killed at a drawn system call. The exit status, standard output and the reports are judged against the model of the input; the input must be as before.",
    nontrivial: "a fault fired, the input was replaced while the tool ran, the tool was killed, or the input is not a document for the tool.",
    assumptions: &[
        "The tools are compiled with their sources unchanged as parts of the simulator; main is called in a forked process, a panic is exit status 101.",
        "Standard output is open (Rust takes a closed one for a sink) and standard error can be written.",
        "What a check reports is taken from the library (P02 is not decided here); the tool has to show all of it.",
    ],
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Tool {
    Identify,
    DumpFootprint,
    DumpLayout,
    AdjustLayout,
    KlcMod,
    KlcLib,
}
use self::Tool::*;
const TOOLS: &[Tool] = &[Identify, DumpFootprint, DumpLayout, AdjustLayout, KlcMod, KlcLib];

impl Tool {
    fn name(self) -> &'static str {
        match self {
            Identify => "identify",
            DumpFootprint => "dump_footprint",
            DumpLayout => "dump_layout",
            AdjustLayout => "adjust_layout",
            KlcMod => "klc_kicad_mod",
            KlcLib => "klc_symbol_lib",
        }
    }
    fn main(self) -> bool {
        match self {
            Identify => tool_identify::__ksim_main(),
            DumpFootprint => tool_dump_footprint::__ksim_main(),
            DumpLayout => tool_dump_layout::__ksim_main(),
            AdjustLayout => tool_adjust_layout::__ksim_main(),
            KlcMod => tool_klc_kicad_mod::__ksim_main(),
            KlcLib => tool_klc_symbol_lib::__ksim_main(),
        }
    }
    fn kind(self) -> Option<Kind> {
        match self {
            Identify => None,
            DumpFootprint | KlcMod => Some(Kind::Fp),
            DumpLayout | AdjustLayout => Some(Kind::Pcb),
            KlcLib => Some(Kind::Lib),
        }
    }
}

/// what can be seen of a tool that ended
struct End {
    success: bool,
    out: String,
    err: String,
}

fn pack(success: bool) -> Vec<u8> {
    let mut v = vec![success as u8];
    v.extend_from_slice(&(k().stdout.len() as u64).to_le_bytes());
    v.extend_from_slice(&k().stdout);
    v.extend_from_slice(&k().stderr);
    v
}
fn start(t: Tool, path: &[u8], crash: Crash) -> Option<End> {
    let path = path.to_vec();
    let v = life(crash, move || {
        k().stdout.clear();
        k().stderr.clear();
        set_args(&[t.name().as_bytes(), &path]);
        EXIT.with(|e| *e.borrow_mut() = Some(|code| pack(code == 0)));
        let r = try_op(t.name(), || t.main());
        k().plan = Plan::none();
        if let Err(ref m) = r {
            k().event(&format!("panic {}", clip(m, 200)))
        }
        Ok(pack(r == Ok(true)))
    })?;
    let n = u64::from_le_bytes([v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]]) as usize;
    let s = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    Some(End { success: v[0] == 1, out: s(&v[9..9 + n]), err: s(&v[9 + n..]) })
}

enum Content {
    Doc(Doc),
    /// judged by what the library makes of it
    Other(Vec<u8>),
}
/// what the tool has to do
enum Want {
    Fail,
    /// exactly this on standard output
    Out(String),
    /// this document, after this line
    Text(Option<String>, Doc),
    /// these lines somewhere, in this order
    Reports(Vec<String>),
}

fn flat(v: &[CheckFixData], o: &mut Vec<String>) {
    for x in v {
        match *x {
            CheckFixData::Item(ref i) => o.push(format!("{}.{} {}:{}", i.section, i.rule, i.item, i.message)),
            CheckFixData::More(ref m) => flat(m, o),
        }
    }
}
fn reports(what: &str, name: &str, v: &[CheckFixData], o: &mut Vec<String>) {
    if !v.is_empty() {
        o.push(format!("{} {}", what, name));
        flat(v, o)
    }
}

impl Content {
    fn bytes(&self) -> Vec<u8> {
        match *self {
            Content::Doc(ref d) => d.render().into_bytes(),
            Content::Other(ref b) => b.clone(),
        }
    }
    /// to be called with the file stored
    fn want(&self, t: Tool, path: &str) -> R<Want> {
        let c = Config::klc();
        Ok(match *self {
            Content::Doc(ref d) => match (t, d) {
                (Identify, d) => Want::Out(format!("found: {}\n", d.kind().name())),
                (DumpFootprint, &Doc::Fp(ref m)) => Want::Text(Some(m.name.clone()), d.clone()),
                (DumpLayout, &Doc::Pcb(_)) => Want::Text(None, d.clone()),
                (AdjustLayout, &Doc::Pcb(_)) => {
                    let mut d = d.clone();
                    on_model(&mut d, &Ed::Pcb(PcbEd::Move(100.0, 0.0)));
                    Want::Text(None, d)
                }
                (KlcMod, &Doc::Fp(ref m)) => {
                    let mut o = vec![];
                    op("check", || reports("Module", &m.name, &m.check(&c), &mut o))?;
                    Want::Reports(o)
                }
                (KlcLib, &Doc::Lib(ref l)) => {
                    let mut o = vec![];
                    op("check", || {
                        for s in &l.symbols {
                            reports("Symbol", &s.name, &s.check(&c), &mut o)
                        }
                    })?;
                    Want::Reports(o)
                }
                _ => Want::Fail,
            },
            Content::Other(_) => {
                let kd = t.kind().unwrap_or(Kind::Fp);
                let entry = t.kind().is_none() as u32;
                op("reference", || match (t, load(kd, path, entry)) {
                    (_, Err(_)) => Want::Fail,
                    (Identify, Ok(Loaded::Unknown(_))) => Want::Out(format!("found: unknown: {}\n", path)),
                    (Identify, Ok(x)) => Want::Out(format!("found: {}\n", x.what())),
                    (DumpFootprint, Ok(Loaded::Fp(m))) => match Loaded::Fp(m.clone()).text() {
                        Ok(s) => Want::Out(format!("{}\n{}\n", m.name, s)),
                        Err(_) => Want::Fail,
                    },
                    (DumpLayout, Ok(x)) => x.text().map(|s| Want::Out(s + "\n")).unwrap_or(Want::Fail),
                    (AdjustLayout, Ok(Loaded::Pcb(mut l))) => {
                        l.adjust(100.0, 0.0);
                        Loaded::Pcb(l).text().map(|s| Want::Out(s + "\n")).unwrap_or(Want::Fail)
                    }
                    (_, Ok(Loaded::Fp(m))) => {
                        let mut o = vec![];
                        reports("Module", &m.name, &m.check(&c), &mut o);
                        Want::Reports(o)
                    }
                    (_, Ok(Loaded::Lib(l))) => {
                        let mut o = vec![];
                        for s in &l.symbols {
                            reports("Symbol", &s.name, &s.check(&c), &mut o)
                        }
                        Want::Reports(o)
                    }
                    _ => Want::Fail,
                })?
            }
        })
    }
}

/// None: the output is complete
fn complete(w: &Want, e: &End) -> Option<String> {
    match *w {
        Want::Fail => Some("the input cannot be read".into()),
        Want::Out(ref s) => {
            if e.out == *s {
                None
            } else {
                Some(format!("output {} of {} bytes: {}", e.out.len(), s.len(), diff(s, &e.out)))
            }
        }
        Want::Text(ref head, ref d) => {
            let mut rest = &e.out[..];
            if let Some(ref h) = *head {
                match rest.strip_prefix(&format!("{}\n", h)[..]) {
                    Some(r) => rest = r,
                    None => return Some(format!("the name {:?} is missing: {:?}", h, clip(&e.out, 200))),
                }
            }
            match rest.strip_suffix('\n') {
                Some(r) => d.check_text(r).map(|m| clip(&m, 600)),
                None => Some(format!("the end of the output is missing, {} bytes", e.out.len())),
            }
        }
        Want::Reports(ref v) => {
            let all = format!("{}{}", e.out, e.err);
            let mut at = 0;
            for s in v {
                match all[at..].find(&s[..]) {
                    Some(i) => at += i + s.len(),
                    None => return Some(format!("the report {:?} is missing (or too late) in {:?}", s, clip(&all, 800))),
                }
            }
            None
        }
    }
}

/// does the tool say that something went wrong?
fn complains(e: &End) -> bool {
    e.err.lines().any(|l| !["INFO:", "DEBUG:", "TRACE:"].iter().any(|p| l.starts_with(p)) && l.to_lowercase().contains("err"))
}

fn content(t: Tool) -> Content {
    match weighted(&[8, 2, 3, 1, 1]) {
        0 => Content::Doc(Doc::gen(t.kind().unwrap_or_else(kind), size())),
        1 => Content::Doc(Doc::gen(kind(), 0)),
        2 => {
            let d = Doc::gen(t.kind().unwrap_or_else(kind), 0);
            let mut b = d.render().into_bytes();
            for _ in 0..1 + small(2) {
                damage(&mut b, b"")
            }
            Content::Other(b)
        }
        3 => Content::Other(any_text().into_bytes()),
        _ => {
            let d = Doc::gen(t.kind().unwrap_or_else(kind), 0);
            let b = d.render().into_bytes();
            let n = below(b.len() as u32 + 1) as usize;
            Content::Other(b[..n].to_vec())
        }
    }
}

fn run() -> R {
    for i in 0..1 + small(2) {
        let t = *pick(TOOLS);
        let path = format!("/sim/w/{}{}", pick(&["in", "a b", "sub/x", "é"]), i);
        let path = &path[..];
        let special = weighted(&[20, 1, 1]);
        let mut wants = vec![];
        let mut replaced = false;
        let mut new = vec![];
        let mut right = true;
        match special {
            0 => {
                let c = content(t);
                right = match c {
                    Content::Doc(ref d) => t.kind().is_none() || t.kind() == Some(d.kind()),
                    _ => false,
                };
                k().put(path, &c.bytes());
                wants.push(c.want(t, path)?);
                if chance(1, 6) {
                    let now = k().get(path).unwrap();
                    let c = content(t);
                    let b = c.bytes();
                    k().put(path, &b);
                    wants.push(c.want(t, path)?);
                    k().put(path, &now);
                    replaced = true;
                    new = b.clone();
                    let at = below(6);
                    let mut calls = 0;
                    let p = path.as_bytes().to_vec();
                    k().actor = Some(Box::new(move |kn: &mut Kernel| {
                        if calls == at {
                            kn.add(&p, Node::File(b.clone()));
                            kn.count("probe.replaced_while_running");
                            kn.event("replaced");
                        }
                        calls += 1;
                    }));
                }
            }
            1 => wants.push(Want::Fail),
            _ => {
                k().add(path.as_bytes(), Node::Dir);
                wants.push(Want::Fail)
            }
        }
        let before = k().snapshot();
        let m = mode();
        plan(m);
        k().plan.space = None;
        if m != Mode::Clean && chance(1, 2) {
            k().plan.stdout_soft = *pick(&[2, 4, 1])
        }
        let mut limit = None;
        if m == Mode::Hard && chance(1, 2) {
            k().plan.stdout_errno = *pick(&[libc::ENOSPC, libc::EPIPE, libc::EIO, libc::EAGAIN]);
            let max = *pick(&[1u32, 30, 300, 2000, 9000]);
            k().plan.stdout_space = below(max) as u64;
            limit = Some(k().plan.stdout_space);
        }
        let crash = if chance(1, 8) { Crash::At { calls: below(12), keep_permille: below(1001) } } else { Crash::Never };
        let mk = mark();
        let end = start(t, path.as_bytes(), crash);
        let (soft, hard) = (mk.soft(), mk.hard());
        k().plan = Plan::none();
        k().crash = Crash::Never;
        k().actor = None;
        if soft + hard > 0 || replaced || end.is_none() || !right {
            nontrivial()
        }
        let mut after = k().snapshot();
        if replaced {
            // the new version may be there
            let key = path.as_bytes().to_vec();
            if after.get(&key) == Some(&Node::File(new.clone())) {
                after.insert(key.clone(), before[&key].clone());
            }
        }
        ensure!(after == before, "input", "{} changed files", t.name());
        let e = match end {
            None => {
                probe("killed");
                continue;
            }
            Some(e) => e,
        };
        k().event(&format!("{} {} {:x} {:x}", t.name(), e.success, crate::util::hash(e.out.as_bytes()), crate::util::hash(e.err.as_bytes())));
        let why: Vec<Option<String>> = wants.iter().map(|w| complete(w, &e)).collect();
        let done = why.iter().any(|w| w.is_none());
        let text = || why.iter().map(|w| w.clone().unwrap_or_default()).collect::<Vec<_>>().join(" / ");
        if e.success {
            ensure!(
                done || complains(&e),
                "success",
                "{} ended successfully without the complete output ({} hard faults, room for {:?} bytes): {}",
                t.name(), hard, limit, text()
            );
            if !done {
                probe("complained")
            } else {
                probe("succeeded")
            }
        } else {
            let may = hard > 0 || wants.iter().any(|w| matches!(w, &Want::Fail));
            ensure!(may, "failure", "{} failed on a good input without a fault: {} {}", t.name(), clip(&e.err, 300), text());
            probe(if hard > 0 { "failed_by_fault" } else { "failed_by_input" })
        }
    }
    Ok(())
}
