//! S14: identifying a file.
use super::doc::{kind, size, Doc, Kind, Loaded, KINDS};
use super::*;
use crate::choice::{below, chance, pick, small, weighted};
use crate::ensure;
use crate::gen;
use crate::kernel::{k, Kernel, Node, Plan};
use crate::run::{op, R};
use crate::util::clip;
use kicad_parse_gen as kpg;
use kicad_parse_gen::{Expected, KicadError, KicadFile};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

pub const PROP: Prop = Prop {
    id: "S14",
    run,
    quick: 100_000,
    thorough: 1_500_000,
    directed: &[],
    how: "One evaluation is one simulated run: 1-3 files with drawn content (well-formed documents of the six kinds, damaged ones, look-alikes, other text) are read with any or a required kind through every reading function, under drawn faults and with up to three replacements of the file by other content at drawn system calls of the reading. The answer must be the one for the complete content of one of the versions that were stored during the call.",
    nontrivial: "a fault fired, the file was replaced during the call, or the content is not a document of the required kind.",
    assumptions: &["Replacing is atomic (a rename).", "When a kind is required, reading through read_kicad_file may also give the file's real kind, which the caller can see; read_module and the like must give an error."],
};

#[derive(Clone)]
enum Content {
    Doc(Doc),
    Text(String),
    Spoilt(Vec<u8>),
}

fn other() -> String {
    match below(7) {
        // another version, or something before the head
        6 => {
            let d = Doc::gen(*pick(&[Kind::Sch, Kind::Lib, Kind::Pro]), 0);
            let t = d.render();
            match (d.kind(), t.find('\n')) {
                (Kind::Pro, _) | (_, None) => format!("{}{}", pick(&["\n", "x\n", "#\n", "[general]\n", "\u{feff}", " "]), t),
                (_, Some(i)) => match below(3) {
                    0 => t.replacen("Version 2", pick(&["Version 4", "Version 1", "Version 20", "Version ", "Version 2.9", "version 2"]), 1),
                    1 => format!("{}{}{}", t[..i].trim_end(), pick(&["x", " 2", ".0", "0"]), &t[i..]),
                    _ => format!("{}{}", pick(&["\n", "x\n", "#\n"]), t),
                },
            }
        }
        0 => {
            let s = any_text();
            if s.starts_with("update=") {
                s[1..].to_string()
            } else if s.starts_with("(module") {
                // what follows a document is not looked at
                format!("x{}", s)
            } else {
                s
            }
        }
        1 => {
            // cut off
            let d = Doc::gen(KINDS[below(5) as usize], size());
            let t = d.render();
            let end = match d.kind() {
                Kind::Sch => t.rfind("$EndSCHEMATC").unwrap(),
                Kind::Lib => t.rfind("#End Library").unwrap(),
                _ => t.rfind(')').unwrap(),
            };
            let mut at = if chance(1, 3) { end } else { below(end as u32 + 1) as usize };
            while !t.is_char_boundary(at) {
                at -= 1
            }
            t[..at].to_string()
        }
        2 => {
            // another head
            let d = Doc::gen(KINDS[below(5) as usize], 0);
            let t = d.render();
            match d.kind() {
                Kind::Sch | Kind::Lib => t[1..].to_string(),
                _ => {
                    let i = t.find('(').unwrap();
                    format!("{}(x{}", &t[..i], &t[i + 1..].trim_start())
                }
            }
        }
        3 => pick(&[
            "", "(", ")", "()", "(module)", "(fp_lib_table (lib))", "(footprint x)", "(kicad_sch)", "module", "update", "Update=x", " update=x",
            "EESchema Schematic File Version 2", "EESchema Schematic File Version 2\n", "EESchema-LIBRARY Version 2.3\n", "EESchema-LIBRARY", "\n\n", "#End Library", "$EndSCHEMATC",
        ])
        .to_string(),
        4 => format!("({} {})", gen::word(), gen::word()).replace("(module", "(modul"),
        _ => {
            let mut s = String::new();
            for _ in 0..small(30) {
                s.push(*pick(&['(', ')', 'a', ' ', '\n', '1', '$']))
            }
            s
        }
    }
}

fn content(near: Option<Kind>) -> Content {
    match weighted(&[6, 3, 1]) {
        0 => Content::Doc(Doc::gen(match near {
            Some(k) if chance(1, 2) => k,
            _ => kind(),
        }, size())),
        1 => Content::Text(other()),
        _ => Content::Spoilt(pick(&[&b"\xff"[..], b"(module x (layer F.Cu)\xc3)", b"update=\x80\n", b"EESchema-LIBRARY Version 2.3\n\xfe"]).to_vec()),
    }
}
impl Content {
    fn bytes(&self) -> Vec<u8> {
        match *self {
            Content::Doc(ref d) => d.render().into_bytes(),
            Content::Text(ref t) => t.clone().into_bytes(),
            Content::Spoilt(ref b) => b.clone(),
        }
    }
    fn kind(&self) -> Option<Kind> {
        match *self {
            Content::Doc(ref d) => Some(d.kind()),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Any,
    /// read_kicad_file with a required kind
    Hint(Kind),
    /// read_module and so on
    Strict(Kind),
}

fn read(p: &Path, how: How) -> Result<(Loaded, Option<String>), KicadError> {
    let of = |f: KicadFile| {
        let d = f.to_string();
        (Loaded::of(f), Some(d))
    };
    Ok(match how {
        How::Any => of(kpg::read_kicad_file(p, Expected::Any)?),
        How::Hint(k) => of(kpg::read_kicad_file(p, k.expected())?),
        How::Strict(Kind::Fp) => (Loaded::Fp(kpg::read_module(p)?), None),
        How::Strict(Kind::Pcb) => (Loaded::Pcb(kpg::read_layout(p)?), None),
        How::Strict(Kind::Sch) => (Loaded::Sch(kpg::read_schematic(p)?), None),
        How::Strict(Kind::Lib) => (Loaded::Lib(kpg::read_symbol_lib(p)?), None),
        How::Strict(Kind::Tab) => (Loaded::Tab(kpg::read_fp_lib_table(p)?), None),
        How::Strict(Kind::Pro) => (Loaded::Pro(kpg::read_project(p)?), None),
    })
}

/// None: this is an answer for the content
fn judge(c: &Content, how: How, path: &Path, r: &Result<(Loaded, Option<String>), KicadError>) -> Option<String> {
    let required = match how {
        How::Any => None,
        How::Hint(k) | How::Strict(k) => Some(k),
    };
    match (c, r) {
        (&Content::Spoilt(_), &Err(_)) => None,
        (&Content::Spoilt(_), &Ok((ref x, _))) => Some(format!("a file that is not UTF-8 was read as {}", x.what())),
        (&Content::Text(ref t), &Ok((Loaded::Unknown(ref p), _))) if required.is_none() => {
            if p.as_os_str() == path.as_os_str() {
                None
            } else {
                Some(format!("unknown file {:?} with another name {:?}; content {:?}", path, p, clip(t, 60)))
            }
        }
        (&Content::Text(_), &Err(_)) if required.is_some() => None,
        (&Content::Text(ref t), &Ok((ref x, _))) => Some(format!("other text was read as {}: {:?}", x.what(), clip(t, 200))),
        (&Content::Text(ref t), &Err(ref e)) => Some(format!("an unknown file gave the error {}: {:?}", e, clip(t, 200))),
        (&Content::Doc(ref d), &Err(ref e)) => {
            if required.is_some() && required != Some(d.kind()) {
                None
            } else {
                Some(format!("a well-formed {} gave the error {}", d.kind().name(), clip(&e.to_string(), 300)))
            }
        }
        (&Content::Doc(ref d), &Ok((ref x, ref shown))) => {
            if required.is_some() && required != Some(d.kind()) {
                if let How::Strict(_) = how {
                    return Some(format!("a {} was accepted as {}", d.kind().name(), x.what()));
                }
            }
            if let Some(e) = d.check_loaded(x, None) {
                return Some(format!("a {} was read wrongly: {}", d.kind().name(), clip(&e, 300)));
            }
            if let &Loaded::Sch(ref s) = x {
                if s.filename.as_ref().map(|x| x.as_os_str()) != Some(path.as_os_str()) {
                    return Some(format!("file name {:?}, loaded from {:?}", s.filename, path));
                }
            }
            match *shown {
                Some(ref s) if s != d.kind().name() => Some(format!("a {} is shown as '{}'", d.kind().name(), s)),
                _ => None,
            }
        }
    }
}

fn run() -> R {
    let m = mode();
    for i in 0..1 + small(2) {
        // the name given, and where the file is
        let mut real = None;
        let path: Vec<u8> = match below(8) {
            0 => b"/sim/w/\xff\xfe.kicad_mod".to_vec(),
            1 => b"/sim/w/dir \xc3/f".to_vec(),
            2 => {
                let (given, at) = *pick(&[
                    ("f", "/sim/cwd/f"),
                    ("./f", "/sim/cwd/f"),
                    ("../w/f", "/sim/w/f"),
                    ("sub/../f", "/sim/cwd/f"),
                    ("/sim/w/../w/f", "/sim/w/f"),
                    ("/sim//w/f", "/sim/w/f"),
                    ("/sim/w/./f", "/sim/w/f"),
                ]);
                k().put("/sim/cwd/sub/x", b"");
                real = Some(format!("{}{}", at, i).into_bytes());
                probe("other_form_of_name");
                format!("{}{}", given, i).into_bytes()
            }
            _ => format!("/sim/w/f{}{}", i, pick(&["", ".sch", ".kicad_pcb", ".lib", ".pro"])).into_bytes(),
        };
        let real = real.unwrap_or(path.clone());
        let how = match below(3) {
            0 => How::Any,
            1 => How::Hint(kind()),
            _ => How::Strict(kind()),
        };
        let near = match how {
            How::Any => None,
            How::Hint(k) | How::Strict(k) => Some(k),
        };
        let mut all = vec![content(near)];
        k().put_bytes(&real, &all[0].bytes());
        if chance(1, 2) {
            let mut todo = vec![];
            let mut at = 0;
            for _ in 0..1 + small(2) {
                at += below(6);
                let c = content(near);
                todo.push((at, c.bytes()));
                all.push(c);
            }
            let mut calls = 0;
            let p = real.clone();
            k().actor = Some(Box::new(move |kn: &mut Kernel| {
                while !todo.is_empty() && todo[0].0 <= calls {
                    let (_, b) = todo.remove(0);
                    kn.add(&p, Node::File(b));
                    kn.count("probe.replaced_during_call");
                    kn.event("replaced");
                }
                calls += 1;
            }));
        }
        plan(m);
        let mk = mark();
        let p = Path::new(OsStr::from_bytes(&path));
        let r = op("read", || read(p, how))?;
        let (soft, hard) = (mk.soft(), mk.hard());
        k().plan = Plan::none();
        k().actor = None;
        if soft + hard > 0 || all.len() > 1 || all[0].kind().is_none() || (near.is_some() && all[0].kind() != near) {
            nontrivial()
        }
        if hard > 0 && r.is_err() {
            probe("error_by_fault");
            continue;
        }
        match r {
            Ok((ref x, _)) => probe(&format!("is_{}", x.what())),
            Err(_) => probe("error"),
        }
        let mut why = vec![];
        for c in &all {
            match judge(c, how, p, &r) {
                None => {
                    why.clear();
                    break;
                }
                Some(e) => why.push(e),
            }
        }
        ensure!(why.is_empty(), "wrong", "reading with {:?}: {}", how, why.join(" / "));
    }
    Ok(())
}
