//! S02: a read gives the whole file or an error, never part of it.
use super::doc::{kind, load, size, Doc, Kind};
use super::*;
use crate::choice::{below, chance, pick, small, weighted};
use crate::ensure;
use crate::kernel::{k, Plan};
use crate::run::{op, viol, R};
use crate::util::clip;
use kicad_parse_gen as kpg;
use std::path::Path;

pub const PROP: Prop = Prop {
    id: "S02",
    run,
    quick: 120_000,
    thorough: 600_000,
    directed: &[],
    how: "One evaluation is one simulated run: 1-4 reads of files of all kinds through every reading function (or plain text through the text reader) under a drawn fault plan, compared with what a complete read must give.",
    nontrivial: "at least one short, interrupted or failed call, or a file that must be rejected.",
    assumptions: &["Documents are drawn from the well-formed domain described in DESIGN.md."],
};

/// bytes that are not UTF-8 anywhere in the text
fn spoil(b: &mut Vec<u8>) {
    let bad: &[u8] = [&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\x80", b"\xc0\xaf"][below(6) as usize];
    let mut at = below(b.len() as u32 + 1) as usize;
    // not inside a character, and not completed by what follows
    while at < b.len() && b[at] & 0xc0 == 0x80 {
        at += 1;
    }
    for (i, x) in bad.iter().enumerate() {
        b.insert(at + i, *x)
    }
}

fn run() -> R {
    let m = mode();
    let ext = *pick(&["", ".kicad_mod", ".sch", ".lib"]);
    for n in 0..1 + small(3) {
        // sometimes a file that was read before, and changed meanwhile
        let path = format!("/sim/w/f{}{}", if chance(1, 3) { 0 } else { n }, ext);
        let old = k().get(&path);
        let text = below(4) == 0;
        let kind = kind();
        let doc = Doc::gen(kind, size());
        let mut content = if text { any_text() } else { doc.render() };
        if let Some(ref o) = old {
            probe("changed_between_reads");
            // by something of the same length
            if text && chance(1, 2) {
                if let Ok(mut t) = String::from_utf8(o.clone()) {
                    let at = below(t.len() as u32 + 1) as usize;
                    if t.is_char_boundary(at) && t.is_char_boundary(at + 1) {
                        t.replace_range(at..at + 1, if &t[at..at + 1] == "x" { "y" } else { "x" })
                    }
                    content = t
                }
            } else if [Kind::Fp, Kind::Pcb, Kind::Tab].contains(&kind) && content.len() < o.len() {
                content.push_str(&"\n".repeat(o.len() - content.len()))
            }
        }
        let mut bytes = content.clone().into_bytes();
        let special = weighted(&[8, 2, 1, 1]);
        match special {
            0 => k().put(&path, &bytes),
            1 => {
                spoil(&mut bytes);
                ensure!(std::str::from_utf8(&bytes).is_err(), "harness", "spoil");
                k().put(&path, &bytes)
            }
            2 => {
                k().add(path.as_bytes(), crate::kernel::Node::Dir);
            }
            _ => k().remove(&path),
        }
        if chance(1, 4) {
            // copies and left-overs beside it
            let d = Doc::gen(kind, 0).render();
            let stem = path.trim_end_matches(ext);
            for s in &["~", ".bak", ".tmp", ".orig", ".old", ".new", ".swp"] {
                k().put(&format!("{}{}", path, s), d.as_bytes());
                if !ext.is_empty() {
                    k().put(&format!("{}{}", stem, s), d.as_bytes());
                }
            }
            probe("others_beside_it")
        }
        plan(if chance(1, 5) { Mode::Clean } else { m });
        let mk = mark();
        if text {
            let r = op("read_file", || kpg::read_file(Path::new(&path)))?;
            let (soft, hard) = (mk.soft(), mk.hard());
            k().plan = Plan::none();
            if soft + hard > 0 || special != 0 {
                nontrivial()
            }
            match r {
                Ok(s) => {
                    ensure!(special == 0, "accepted", "read_file gave a text of {} bytes for {}", s.len(), ["", "a file that is not UTF-8", "a directory", "a missing file"][special]);
                    ensure!(s == content, "partial", "read_file gave {} of {} bytes: {}", s.len(), content.len(), clip(&crate::util::diff(&content, &s), 300));
                    if hard > 0 {
                        probe("ok_after_hard_fault")
                    }
                }
                Err(e) => ensure!(special != 0 || hard > 0, "spurious", "read_file failed without a cause: {}", e),
            }
        } else {
            let entry = below(kind.entries());
            let r = op("load", || load(kind, &path, entry))?;
            let (soft, hard) = (mk.soft(), mk.hard());
            k().plan = Plan::none();
            if soft + hard > 0 || special != 0 {
                nontrivial()
            }
            match r {
                Ok(x) => {
                    ensure!(special == 0, "accepted", "reading gave a {} for {}", x.what(), ["", "a file that is not UTF-8", "a directory", "a missing file"][special]);
                    if let Some(e) = doc.check_loaded(&x, Some(&path)) {
                        return viol("partial", format!("reading a {} through entry {} gave a wrong result: {}", kind.name(), entry, clip(&e, 500)));
                    }
                    if hard > 0 {
                        probe("ok_after_hard_fault")
                    }
                    if soft > 3 {
                        probe("many_partial_reads")
                    }
                }
                Err(e) => ensure!(special != 0 || hard > 0, "spurious", "reading a well-formed {} through entry {} failed without a cause: {}", kind.name(), entry, clip(&e.to_string(), 300)),
            }
        }
    }
    Ok(())
}
