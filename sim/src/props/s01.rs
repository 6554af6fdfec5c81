//! S01: an acknowledged write leaves exactly the given content in the file.
use super::doc::{size, Doc, Kind};
use super::*;
use crate::choice::{below, chance, pick, small, weighted};
use crate::ensure;
use crate::kernel::{k, Node};
use crate::run::{op, R};
use crate::util::clip;
use kicad_parse_gen as kpg;
use std::path::Path;

pub const PROP: Prop = Prop {
    id: "S01",
    run,
    quick: 120_000,
    thorough: 600_000,
    directed: &[],
    how: "One evaluation is one simulated run: 1-5 writes (text, footprint or layout; to new, existing, shorter, longer, linked and impossible paths) through the simulated kernel under a drawn fault plan, each followed by a comparison of the stored bytes.",
    nontrivial: "at least one short, interrupted or failed call, or a full disk, hit a write.",
    assumptions: &["Close never fails (a program cannot see it through the Rust standard library)."],
};

enum Place {
    Ok,
    /// the system must refuse
    Never,
}

fn target(n: u32) -> (String, Place) {
    match weighted(&[5, 4, 2, 2, 1, 1, 1, 1, 1]) {
        0 => (format!("/sim/w/new{}", n), Place::Ok),
        1 => {
            let p = "/sim/w/old".to_string();
            if k().get(&p).is_none() || chance(1, 3) {
                k().put(&p, any_text().as_bytes());
            }
            (p, Place::Ok)
        }
        2 => ("rel.txt".into(), Place::Ok),
        3 => {
            k().put("/sim/w/target", b"linked, and longer than what is written into it, perhaps");
            k().add(b"/sim/w/link", Node::Symlink(b"target".to_vec()));
            ("/sim/w/link".into(), Place::Ok)
        }
        4 => ("/sim/w/no/such/dir/x".into(), Place::Never),
        5 => ("/sim/w".into(), Place::Never),
        6 => ("/sim/w/old/x".into(), Place::Never),
        7 => (format!("/sim/w/{}", "long".repeat(70)), Place::Never),
        _ => ("/sim/w/sp ace é.kicad_mod".into(), Place::Ok),
    }
}

/// almost the same content
fn near(mut b: Vec<u8>) -> Vec<u8> {
    let n = b.len() as u32;
    match below(6) {
        0 => (),
        1 => {
            let at = below(n + 1) as usize;
            b.truncate(at)
        }
        2 => b.extend_from_slice(any_text().as_bytes()),
        3 => {
            b.pop();
        }
        _ => {
            // one byte differs, often late
            if n > 0 {
                let at = if chance(1, 2) { n - 1 - small(n - 1) } else { below(n) };
                b[at as usize] = if b[at as usize] == b'x' { b'y' } else { b'x' }
            }
        }
    }
    b
}

enum What {
    Text(String),
    Doc(Doc),
}

fn run() -> R {
    let m = mode();
    for n in 0..1 + small(4) {
        let (path, place) = target(n);
        let what = match below(3) {
            0 => What::Text(any_text()),
            1 => What::Doc(Doc::gen(Kind::Fp, size())),
            _ => What::Doc(Doc::gen(Kind::Pcb, size())),
        };
        if let (&Place::Ok, true) = (&place, chance(1, 4)) {
            // what is there already is almost what is to be written
            let new = match what {
                What::Text(ref s) => s.clone(),
                What::Doc(Doc::Fp(ref d)) => op("print", || kpg::footprint::module_to_string(d, 0))?.unwrap_or_default(),
                What::Doc(Doc::Pcb(ref d)) => op("print", || kpg::layout::layout_to_string(d, 0))?.unwrap_or_default(),
                _ => unreachable!(),
            };
            if let Ok(p) = k().resolve(path.as_bytes(), true) {
                k().put_bytes(&p, &near(new.into_bytes()));
                probe("overwrites_similar_content")
            }
        }
        plan(if chance(1, 5) { Mode::Clean } else { m });
        let mk = mark();
        let was = k().get(&path).is_some();
        let r = match what {
            What::Text(ref s) => {
                let owned = chance(1, 2);
                op("write_file", || if owned { kpg::write_file(path.clone(), s) } else { kpg::write_file(Path::new(&path), s) })?
            }
            What::Doc(Doc::Fp(ref d)) => op("write_module", || kpg::write_module(d, Path::new(&path)))?,
            What::Doc(Doc::Pcb(ref d)) => op("write_layout", || kpg::write_layout(d, Path::new(&path)))?,
            _ => unreachable!(),
        };
        let (soft, hard) = (mk.soft(), mk.hard());
        k().plan = crate::kernel::Plan::none();
        if soft + hard > 0 {
            nontrivial();
        }
        match r {
            Ok(()) => {
                let got = match k().get(&path) {
                    Some(g) => g,
                    None => return crate::run::viol("lost", format!("write to {} reported success but there is no such file", path)),
                };
                if hard > 0 {
                    probe("ok_after_hard_fault")
                }
                match what {
                    What::Text(ref s) => {
                        if got.len() > 8192 && soft > 0 {
                            probe("big_text_with_partial_writes")
                        }
                        ensure!(
                            got == s.as_bytes(),
                            "content",
                            "write to {} reported success; {} bytes were to be written, {} are stored ({})",
                            path, s.len(), got.len(),
                            clip(&crate::util::diff(s, &String::from_utf8_lossy(&got)), 400)
                        );
                    }
                    What::Doc(ref d) => {
                        let t = match String::from_utf8(got) {
                            Ok(t) => t,
                            Err(_) => return crate::run::viol("content", format!("{} is not UTF-8 after a successful save", path)),
                        };
                        if let Some(e) = d.check_text(&t) {
                            return crate::run::viol("content", format!("saving a {} to {} reported success, but: {}", d.kind().name(), path, clip(&e, 400)));
                        }
                    }
                }
            }
            Err(e) => {
                let s = e.to_string();
                match place {
                    Place::Ok => {
                        ensure!(hard > 0, "spurious", "write to {} failed without a cause ({} partial or interrupted calls): {}", path, soft, s);
                        probe("reported_error")
                    }
                    Place::Never => probe("impossible_path"),
                }
                ensure!(!was || k().get(&path).is_some(), "removed", "the failed write removed {}", path);
                ensure!(s.contains(&path), "unnamed", "the error does not name the file {}: {}", path, s);
            }
        }
        if let (Place::Never, true) = (place, pick(&[true]) == &true) {
            ensure!(k().get(&path).is_none(), "harness", "impossible path exists");
        }
    }
    Ok(())
}
