//! S10: a save cut short by a crash is never read as a complete document.
use super::doc::{load, parse, size, Doc, Kind, Loaded};
use super::edits;
use super::*;
use crate::choice::{below, chance, pick, small};
use crate::ensure;
use crate::kernel::{k, Crash, Plan};
use crate::run::{life, op, viol, R};
use crate::util::clip;
use std::path::Path;

pub const PROP: Prop = Prop {
    id: "S10",
    run,
    quick: 40000,
    thorough: 1_000_000,
    directed: &[],
    how: "One evaluation is one simulated run: a program life saves a document over an older one and crashes at a drawn mutating system call with a drawn part of the interrupted write stored; in half of the runs the machine crashes too and a drawn tail of unsynced data is lost. A new life loads the file: it must give the complete old or new document or an error. The crash may be repeated, then the save is repeated and must give the new document.",
    nontrivial: "the life crashed.",
    assumptions: &["Crash model: stored data is a prefix of what was written to the file; directory operations are durable and ordered.", "Projects are free text without an end and are excluded."],
};

fn judge(kind: Kind, path: &str, docs: &[&Doc], entry: u32) -> R<Vec<u8>> {
    let r = op("load", || load(kind, path, entry))?;
    match r {
        Err(_) => {
            probe("error_after_crash");
            Ok(vec![])
        }
        Ok(Loaded::Unknown(_)) => {
            probe("unknown_after_crash");
            Ok(vec![])
        }
        Ok(x) => {
            let mut why = String::new();
            for (i, d) in docs.iter().enumerate() {
                match d.check_loaded(&x, None) {
                    None => {
                        probe(if i == 0 { "new_after_crash" } else { "old_after_crash" });
                        return Ok(vec![]);
                    }
                    Some(e) => why.push_str(&format!(" {}: {}", ["not the new", "not the old"][i.min(1)], clip(&e, 250))),
                }
            }
            viol("partial", format!("after a crash during a save a {} loads that is neither the old nor the new document:{}", kind.name(), why))
        }
    }
}

fn save(x: &Loaded, path: &str, m: Mode) -> R<bool> {
    plan(m);
    let mk = mark();
    let r = op("save", || x.save(path))?;
    let hard = mk.hard();
    k().plan = Plan::none();
    if let Err(ref e) = r {
        ensure!(hard > 0, "spurious", "saving failed without a cause: {}", e);
    }
    Ok(r.is_ok())
}

fn run() -> R {
    let kind = *pick(&[Kind::Fp, Kind::Pcb, Kind::Sch, Kind::Lib, Kind::Tab]);
    let path = format!("/sim/w/doc.{}", kind.ext());
    let p = path.as_str();
    let m = mode();
    let m = if m == Mode::Hard && chance(1, 2) { Mode::Soft } else { m };
    let mut old: Option<Doc> = None;
    if chance(3, 4) {
        let d = edits::doc(kind, size());
        k().put(p, d.render().as_bytes());
        old = Some(d)
    }
    for _ in 0..1 + small(2) {
        // a new document: an edited old one, or another one
        let new = match old {
            Some(ref o) if chance(1, 2) => {
                let mut d = o.clone();
                for _ in 0..1 + small(4) {
                    let e = edits::draw(&d);
                    edits::on_model(&mut d, &e);
                }
                d
            }
            _ => edits::doc(kind, size()),
        };
        let text = new.render();
        let tries = 1 + small(2);
        for _ in 0..tries {
            let crash = Crash::At { calls: small(5), keep_permille: *pick(&[0, 1000, 999, 998, 500, 10]) };
            let crash = if chance(1, 2) { crash } else { Crash::At { calls: 1 + small(3), keep_permille: below(1001) } };
            let done = life(crash, || {
                let x = match op("parse", || parse(kind, &text, Some(Path::new(p))))? {
                    Ok(x) => x,
                    Err(e) => return viol("spurious", format!("parsing failed: {}", e)),
                };
                let ok = save(&x, p, m)?;
                Ok(vec![ok as u8])
            });
            let failed = done == Some(vec![0]);
            if done.is_none() {
                nontrivial();
                probe("crashed")
            }
            if chance(1, 2) {
                k().lose_unsynced()
            }
            let entry = below(kind.entries());
            let mut docs = vec![&new];
            if let Some(ref o) = old {
                docs.push(o)
            }
            if done.is_none() || failed || chance(1, 4) {
                life(Crash::Never, || judge(kind, p, &docs, entry));
            }
        }
        // the save is repeated after the restart
        life(Crash::Never, || {
            let x = match op("parse", || parse(kind, &text, Some(Path::new(p))))? {
                Ok(x) => x,
                Err(e) => return viol("spurious", format!("parsing failed: {}", e)),
            };
            ensure!(save(&x, p, if m == Mode::Hard { Mode::Soft } else { m })?, "spurious", "the repeated save failed");
            let r = op("load", || load(kind, p, 0))?;
            match r {
                Ok(y) => {
                    if let Some(e) = new.check_loaded(&y, None) {
                        return viol("repeated", format!("the repeated save does not give the new document: {}", clip(&e, 400)));
                    }
                }
                Err(e) => return viol("repeated", format!("the document of the repeated save cannot be loaded: {}", e)),
            }
            Ok(vec![])
        });
        old = Some(new)
    }
    Ok(())
}
