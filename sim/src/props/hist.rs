//! S03-S07: documents survive every history of load, edit, save, failed save, retry, restart.
use super::doc::{load, parse, size, Doc, Kind, Loaded};
use super::edits::{self, Ed};
use super::*;
use crate::choice::{below, chance, small};
use crate::ensure;
use crate::kernel::{k, Crash, Plan};
use crate::run::{life, op, viol, R};
use crate::util::{clip, diff};

const HOW: &str = "One evaluation is one simulated run: a stored document goes through 1-4 program lives (separate processes), each loading it through a drawn entry point, comparing it with the reference model, applying 0-6 edits and lookups checked against the model, and saving it under a drawn fault plan with retries; the stored text is compared with an independent serialiser after every save.";
const NON: &str = "at least one edit changed the document or at least one fault fired.";
const ASSUME: &[&str] = &["Documents are drawn from the well-formed domain described in DESIGN.md."];

macro_rules! prop {
    ($name:ident, $id:expr, $run:expr, $directed:expr) => {
        pub const $name: Prop =
            Prop { id: $id, run: $run, quick: 50_000, thorough: 400_000, directed: $directed, how: HOW, nontrivial: NON, assumptions: ASSUME };
    };
}
prop!(S03, "S03", || run(Kind::Fp), &[("two_justifications", || two_justifications(Kind::Fp))]);
prop!(S04, "S04", || run(Kind::Pcb), &[("two_justifications", || two_justifications(Kind::Pcb))]);
prop!(S05, "S05", || run(Kind::Sch), &[]);
prop!(S06, "S06", || run(Kind::Lib), &[]);
prop!(S07, "S07", || run(if below(4) == 0 { Kind::Pro } else { Kind::Tab }), &[]);

/// a text that is justified and mirrored
fn two_justifications(kind: Kind) -> R {
    let effects = "(effects (font (size 1 1) (thickness 0.15)) (justify left mirror))";
    let text = match kind {
        Kind::Fp => format!("(module X (layer F.Cu) (fp_text user A (at 0 0) (layer B.SilkS) {}))", effects),
        _ => {
            let l = op("print", || Loaded::Pcb(Default::default()).text())?.unwrap();
            format!("{} (gr_text A (at 0 0) (layer B.SilkS) {}))", l.trim_end().trim_end_matches(')'), effects)
        }
    };
    let path = "/sim/w/f";
    k().put(path, text.as_bytes());
    if let Ok(x) = op("load", || load(kind, path, 0))? {
        let _ = op("save", || x.save(path))?;
        let s = String::from_utf8(k().get(path).unwrap()).unwrap();
        ensure!(s.contains("left") && s.contains("mirror"), "lost", "a justification is lost: {}", clip(&s, 800));
    } else {
        return viol("lost", "a text with two justifications cannot be loaded".into());
    }
    Ok(())
}

/// what one life does
pub struct Session {
    pub entry: u32,
    pub edits: Vec<(Ed, Doc, String)>,
    pub mode: Mode,
    /// load again and compare in the same life
    pub reload: bool,
}

fn same(model: &Doc, x: &Loaded, path: Option<&str>, what: &str) -> R {
    match model.check_loaded(x, path) {
        None => Ok(()),
        Some(e) => viol("differs", format!("{}: {}", what, clip(&e, 600))),
    }
}
pub fn text_is(model: &Doc, text: &str, what: &str) -> R {
    match model.check_text(text) {
        None => Ok(()),
        Some(e) => viol("text", format!("{}: {}", what, clip(&e, 600))),
    }
}

/// load under faults; a failure must have a cause, and a retry without faults must work
fn load_retry(kind: Kind, path: &str, entry: u32, m: Mode) -> R<Loaded> {
    for n in 0..3 {
        plan(if n == 2 { Mode::Clean } else { m });
        let mk = mark();
        let r = op("load", || load(kind, path, entry))?;
        let hard = mk.hard();
        k().plan = Plan::none();
        match r {
            Ok(x) => return Ok(x),
            Err(e) => {
                ensure!(hard > 0, "spurious", "loading a {} through entry {} failed without a cause: {}", kind.name(), entry, clip(&e.to_string(), 400));
                probe("load_failed");
            }
        }
    }
    viol("harness", "load".into())
}
pub fn save_retry(x: &Loaded, path: &str, m: Mode) -> R {
    let tries = 1 + below(3);
    for n in 0..=tries {
        plan(if n == tries { Mode::Clean } else { m });
        let mk = mark();
        let r = op("save", || x.save(path))?;
        let hard = mk.hard();
        k().plan = Plan::none();
        match r {
            Ok(()) => return Ok(()),
            Err(e) => {
                ensure!(hard > 0, "spurious", "saving failed without a cause: {}", e);
                probe("save_failed");
                if n > 0 {
                    probe("save_failed_again")
                }
            }
        }
    }
    viol("harness", "save".into())
}

pub fn session(kind: Kind, model: &Doc, s: &Session, path: &str) -> R<Vec<u8>> {
    let mut x = load_retry(kind, path, s.entry, s.mode)?;
    let from = if s.entry == 3 && kind != Kind::Sch { None } else { Some(path) };
    same(model, &x, from, "loaded document")?;
    let mut last = model;
    for (e, after, want) in &s.edits {
        let got = op(&edits::name(e), || edits::on_loaded(&mut x, e))?;
        ensure!(&got == want, "outcome", "{} gave {}", edits::name(e), clip(&diff(want, &got), 500));
        same(after, &x, from, &format!("after {}", edits::name(e)))?;
        last = after;
    }
    let text = op("print", || x.text())?;
    match text {
        Ok(ref t) => text_is(last, t, "printed document")?,
        Err(ref e) => return viol("spurious", format!("printing failed: {}", e)),
    }
    save_retry(&x, path, s.mode)?;
    let stored = k().get(path).unwrap_or_default();
    ensure!(Ok(&stored[..]) == text.as_ref().map(|t| t.as_bytes()).map_err(|_| ()), "stored", "the stored text is not the printed one");
    if s.reload {
        let y = load_retry(kind, path, (s.entry + 1) % kind.entries(), s.mode)?;
        same(last, &y, Some(path), "document loaded again")?;
        let t = op("print", || y.text())?;
        ensure!(t.as_ref().ok() == text.as_ref().ok(), "unstable", "printing the reloaded document gives another text: {}", clip(&diff(text.as_ref().unwrap(), t.as_ref().map(|x| &x[..]).unwrap_or("")), 400));
        let z = op("parse", || parse(kind, text.as_ref().unwrap(), None))?;
        match z {
            Ok(z) => same(last, &z, None, "parsed printed text")?,
            Err(e) => return viol("spurious", format!("the printed text cannot be parsed: {}", e)),
        }
    }
    Ok(vec![])
}

fn run(kind: Kind) -> R {
    let path = format!("/sim/w/doc.{}", kind.ext());
    let mut model = edits::doc(kind, size());
    k().put(&path, model.render().as_bytes());
    let m = mode();
    let mk = mark();
    for _ in 0..1 + small(3) {
        let before = model.clone();
        let mut s = Session { entry: below(kind.entries()), edits: vec![], mode: if chance(1, 4) { Mode::Clean } else { m }, reload: chance(1, 2) };
        for _ in 0..edits::how_many() {
            let e = edits::draw(&model);
            let was = model.dbg();
            let out = edits::on_model(&mut model, &e);
            if model.dbg() != was {
                nontrivial();
                probe("edited")
            } else {
                probe("looked_up_or_same")
            }
            s.edits.push((e, model.clone(), out));
        }
        if life(Crash::Never, || session(kind, &before, &s, &path)).is_none() {
            return viol("harness", "life crashed".into());
        }
        // what the next life will find
        let stored = k().get(&path).unwrap_or_default();
        match String::from_utf8(stored) {
            Ok(t) => text_is(&model, &t, "stored document")?,
            Err(_) => return viol("text", "stored document is not UTF-8".into()),
        }
    }
    if mk.soft() + mk.hard() > 0 {
        nontrivial()
    }
    Ok(())
}
