//! S09: a damaged file gives a document or an error, never a crash or a hang.
use super::doc::{kind, load, size, Doc, Kind, Loaded};
use super::edits;
use super::*;
use crate::choice::{below, chance, pick, small, weighted};
use crate::gen;
use crate::kernel::k;
use crate::run::{op, R};
use kicad_parse_gen::checkfix::{CheckFix, Config};
use kicad_parse_gen::BoundingBox;

pub const PROP: Prop = Prop {
    id: "S09",
    run,
    quick: 200_000,
    thorough: 4_000_000,
    directed: &[],
    how: "One evaluation is one simulated run: a stored document of any kind gets 1-4 damages (cuts, lost, doubled or swapped lines and blocks, changed bits, bytes, words and numbers, zeroed, constant or garbage blocks up to 300 kB, parts of other files) and is read through a drawn reading function, as its own or another kind; up to 40 further copies with one changed word each are read, too; a returned document is printed, looked up in, edited, checked, saved and loaded again.",
    nontrivial: "the damage changed the file.",
    assumptions: &[],
};

fn words(s: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut start = None;
    for (i, c) in s.char_indices() {
        let sep = c.is_whitespace() || c == '(' || c == ')' || c == '"';
        match (sep, start) {
            (true, Some(b)) => {
                v.push((b, i));
                start = None
            }
            (false, None) => start = Some(i),
            _ => (),
        }
    }
    if let Some(b) = start {
        v.push((b, s.len()))
    }
    v
}
const NASTY: &[&str] = &[
    "", "0", "-1", "1e999", "-1e999", "NaN", "inf", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999999", "0x10", "1.5", "1.", ".5", "-", "+", "--1", "1e", "é", "日本語",
    "\u{0}", "\u{7f}", "\u{301}", "\u{feff}", "\"", "\"\"", "\"\\\\\"", "(", ")", "()", "((", "))", "\\", "\\\"", "#", "$", "$Comp", "$EndComp", "$Sheet", "$EndSheet", "$Descr", "$EndDescr", "$EndSCHEMATC", "EELAYER END", "DEF", "ENDDEF", "DRAW",
    "ENDDRAW", "#End Library", "F 0", "F", "F0", "F99999999999999999999", "U", "P", "L", "AR", "S", "X", "Text", "Wire", "NoConn", "Connection", "~", "ALIAS", "$FPLIST", "$ENDFPLIST", "module", "kicad_pcb", "fp_lib_table", "lib", "pad",
    "net", "layer", "at", "F.Cu", "*.Cu", "In3.Cu", "B", ".", "..", "F.", ".Cu", "F.Cu.x", "hide", "yes", "no", "H", "V", "C", "CNN", "CN", "N", "\t", "\n", "\r\n", " ", "\n\n", "\u{85}", "\u{2028}",
];

const BIG: &[&str] = &[
    "9223372036854775807", "-9223372036854775808", "9223372036854775806", "2147483648", "-2147483649", "4294967296", "18446744073709551615", "1e308", "65536", "0", "-1",
];
const ODD: &[char] = &['é', '日', '\u{1f600}', 'N', 'x', '0', '9', '-', '.', '"', '(', ')', '#', '~', '%', '\\', '\u{0}', '\u{301}'];

/// a word of a line, with every kind of line (its first word) equally likely
fn rare_word(s: &str, ws: &[(usize, usize)]) -> (usize, usize) {
    let mut kinds: Vec<(&str, Vec<usize>)> = vec![];
    let mut last = None;
    for (i, &(x, y)) in ws.iter().enumerate() {
        let first = match last {
            None => true,
            Some(e) => s[e..x].contains('\n'),
        };
        last = Some(y);
        if first {
            match kinds.iter_mut().find(|k| k.0 == &s[x..y]) {
                Some(k) => k.1.push(i),
                None => kinds.push((&s[x..y], vec![i])),
            }
        }
    }
    let i = *pick(&pick(&kinds).1);
    let mut n = 1;
    while i + n < ws.len() && !s[ws[i + n - 1].1..ws[i + n].0].contains('\n') {
        n += 1
    }
    ws[i + below(n as u32) as usize]
}

/// a word changed
fn word_damage(b: &mut Vec<u8>) {
    let s = String::from_utf8_lossy(b).into_owned();
    let ws = words(&s);
    if ws.is_empty() {
        return;
    }
    let (x, y) = if chance(1, 2) { *pick(&ws) } else { rare_word(&s, &ws) };
    let w = &s[x..y];
    let new = match below(6) {
        _ if chance(1, 3) && w.bytes().all(|c| c.is_ascii_digit()) => pick(BIG).to_string(),
        0 | 1 => {
            let (c, d) = *pick(&ws);
            s[c..d].to_string()
        }
        2 | 3 => pick(NASTY).to_string(),
        // a part of the word
        _ => {
            let cs: Vec<char> = w.chars().collect();
            let i = if chance(1, 2) { 0 } else { below(cs.len() as u32) as usize };
            let c = *pick(ODD);
            let (a, z): (String, String) = (cs[..i].iter().collect(), cs[i + 1..].iter().collect());
            match below(6) {
                0 | 1 => format!("{}{}{}", a, c, z),
                2 => format!("{}{}{}{}", a, c, cs[i], z),
                3 => format!("{}{}", a, z),
                4 => format!("{}{}", a, cs[i]),
                _ => format!("{}{}", w, c),
            }
        }
    };
    *b = [&s[..x], &new, &s[y..]].concat().into_bytes()
}

/// one damage; the result need not be text
pub fn damage(b: &mut Vec<u8>, other: &[u8]) {
    let n = b.len() as u32;
    let pos = |n: u32| below(n + 1) as usize;
    match weighted(&[60, 48, 36, 24, 36, 24, 24, 24, 72, 36, 24, 24, 12, 24, 36, 1]) {
        // cut at the end, sometimes exactly after a line
        0 => {
            let mut p = pos(n);
            if chance(1, 3) {
                p = b[..p].iter().rposition(|c| *c == b'\n').map(|i| i + chance(1, 2) as usize).unwrap_or(p)
            }
            b.truncate(p)
        }
        // lines lost, doubled, swapped
        t @ 1..=3 => {
            let mut ls: Vec<Vec<u8>> = b.split(|c| *c == b'\n').map(|l| l.to_vec()).collect();
            let i = below(ls.len() as u32) as usize;
            let c = (1 + small(3) as usize).min(ls.len() - i);
            match t {
                1 => {
                    ls.drain(i..i + c);
                }
                2 => {
                    let d: Vec<Vec<u8>> = ls[i..i + c].to_vec();
                    let at = if chance(1, 2) { i } else { below(ls.len() as u32 + 1) as usize };
                    for (j, l) in d.into_iter().enumerate() {
                        ls.insert(at + j, l)
                    }
                }
                _ => {
                    let j = below(ls.len() as u32) as usize;
                    ls.swap(i, j)
                }
            }
            *b = ls.join(&b'\n')
        }
        // bytes lost
        4 => {
            let p = pos(n);
            let l = (1 + small(40) as usize).min(b.len() - p);
            b.drain(p..p + l);
        }
        // a bit
        5 if n > 0 => {
            let p = below(n) as usize;
            b[p] ^= 1 << below(8)
        }
        // a zeroed or garbage block
        6 if n > 0 => {
            let p = below(n) as usize;
            let l = (1 + below(64) as usize).min(b.len() - p);
            let g = below(3);
            for x in &mut b[p..p + l] {
                *x = match g {
                    0 => 0,
                    1 => below(256) as u8,
                    _ => b' ' + below(95) as u8,
                }
            }
        }
        // a block repeated
        7 if n > 0 => {
            let p = below(n) as usize;
            let l = (1 + below(200) as usize).min(b.len() - p);
            let d = b[p..p + l].to_vec();
            let at = pos(n);
            b.splice(at..at, d);
        }
        // a word changed
        8 | 14 => {
            word_damage(b)
        }
        // something inserted
        9 => {
            let at = pos(n);
            b.splice(at..at, pick(NASTY).bytes());
        }
        // continues as another file
        10 => {
            let p = pos(n);
            let q = pos(other.len() as u32);
            b.truncate(p);
            b.extend_from_slice(&other[q..])
        }
        // a piece of another file inside
        11 => {
            let p = pos(n);
            let q = pos(other.len() as u32);
            let l = (1 + below(300) as usize).min(other.len() - q);
            b.splice(p..p, other[q..q + l].to_vec());
        }
        // a block of one byte: a file that was allocated but never written, or overwritten
        15 => {
            let p = pos(n);
            let l = *pick(&[512usize, 4096, 20_000, 45_000, 65536, 300_000]);
            let c = *pick(&[0u8, b'(', b')', b'"', b' ', b'\n', b'0', 0xff, b'$', b'a']);
            let mut x = if chance(1, 3) { pick(NASTY).as_bytes().to_vec() } else { vec![] };
            x.resize(x.len() + l, c);
            b.splice(p..p, x);
        }
        // line ends
        12 => {
            let s = String::from_utf8_lossy(b).into_owned();
            *b = match below(3) {
                0 => s.replace('\n', "\r\n"),
                1 => s.replace('\n', "\r"),
                _ => s.replace('\n', "\n\n"),
            }
            .into_bytes()
        }
        // a number changed
        _ => {
            let digits: Vec<usize> = b.iter().enumerate().filter(|(_, c)| c.is_ascii_digit()).map(|(i, _)| i).collect();
            if digits.is_empty() {
                return;
            }
            let p = *pick(&digits);
            match below(6) {
                // all of it
                4 | 5 => {
                    let s = b[..p].iter().rposition(|c| !c.is_ascii_digit()).map(|i| i + 1).unwrap_or(0);
                    let e = b[p..].iter().position(|c| !c.is_ascii_digit()).map(|i| p + i).unwrap_or(b.len());
                    b.splice(s..e, pick(BIG).bytes());
                }
                0 => b[p] = b'0' + below(10) as u8,
                1 => {
                    b.remove(p);
                }
                2 => {
                    let x = vec![b'9'; 1 + below(30) as usize];
                    b.splice(p..p, x);
                }
                _ => b.insert(p, *pick(&[b'-', b'.', b'e', b'+', b' ', b'x'])),
            }
        }
    }
}

/// everything that can be done with a document
pub fn use_it(x: &mut Loaded) {
    match *x {
        Loaded::Fp(ref m) => {
            m.bounding_box();
            for d in m.check(&Config::klc()) {
                d.dump_on_logger(0)
            }
        }
        Loaded::Pcb(ref l) => {
            l.bounding_box();
            for n in l.nets() {
                let mut n = n.name.clone();
                n.is_unnamed_net();
                let _ = n.set_unnamed_net("X");
            }
            for m in l.get_modules() {
                if let Some(r) = m.get_reference() {
                    kicad_parse_gen::reference_ord(r);
                }
                m.bounding_box();
                m.check(&Config::klc());
            }
        }
        Loaded::Sch(ref s) => {
            s.bounding_box();
            let _ = s.all_components();
            for mut c in s.components() {
                kicad_parse_gen::reference_ord(&c.reference);
                c.get_available_field_num();
                c.fields_hash();
                let f = kicad_parse_gen::schematic::ComponentField::new_from(0, "n".into(), "v".into(), 0.0, 0.0);
                c.add_new_field(&f, "n", "v");
                c.bounding_box();
                let _ = c.to_string();
            }
            crate::gen::schematic::clone(s).increment_sheet_count();
            let _ = s.component_by_reference("R1");
            for x in &s.sheets {
                let _ = kicad_parse_gen::schematic::filename_for_sheet(s, x);
            }
        }
        Loaded::Lib(ref l) => {
            for s in &l.symbols {
                for d in s.check(&Config::klc()) {
                    d.dump_on_logger(0)
                }
            }
        }
        Loaded::Tab(ref t) => {
            for l in &t.libs {
                let _ = l.get_expanded_uri();
            }
        }
        _ => (),
    }
}

/// an edit that fits what was loaded
pub fn an_edit(x: &Loaded) -> edits::Ed {
    match *x {
        Loaded::Fp(ref m) => edits::Ed::Fp(edits::fp_ed(m)),
        Loaded::Pcb(ref l) => edits::Ed::Pcb(edits::pcb_ed(l)),
        Loaded::Sch(ref l) => edits::Ed::Sch(edits::sch_ed(l)),
        Loaded::Lib(ref l) => edits::Ed::Lib(edits::lib_ed(l)),
        Loaded::Tab(ref l) => edits::Ed::Tab(edits::tab_ed(l)),
        _ => edits::Ed::Nothing,
    }
}

fn run() -> R {
    let kind = kind();
    let doc = Doc::gen(kind, size());
    let good = doc.render().into_bytes();
    let mut b = good.clone();
    let other = if chance(1, 2) { good.clone() } else { Doc::gen(super::doc::kind(), 0).render().into_bytes() };
    for _ in 0..1 + small(3) {
        damage(&mut b, &other)
    }
    // most damage should reach the parsers
    if std::str::from_utf8(&b).is_err() && chance(2, 3) {
        b = String::from_utf8_lossy(&b).into_owned().into_bytes()
    }
    if b != good {
        nontrivial()
    }
    let path = "/sim/w/d";
    // the same file with other single damages
    if good.len() < 6000 {
        for _ in 0..small(40) {
            let mut c = good.clone();
            word_damage(&mut c);
            k().put(path, &c);
            let entry = below(kind.entries());
            if let Ok(mut x) = op("load variant", || load(kind, path, entry))? {
                op("use variant", || {
                    use_it(&mut x);
                    let _ = x.text();
                })?
            }
        }
    }
    k().put(path, &b);
    let as_kind = if chance(1, 8) { super::doc::kind() } else { kind };
    let entry = below(as_kind.entries());
    let r = op("load", || load(as_kind, path, entry))?;
    let mut x = match r {
        Ok(x) => x,
        Err(e) => {
            // an error can be shown
            op("show error", || format!("{} {:?}", e, e))?;
            probe("error");
            return Ok(());
        }
    };
    if let Loaded::Unknown(_) = x {
        probe("unknown");
        return Ok(());
    }
    if b != good && as_kind != Kind::Pro {
        probe("document_from_damaged_file")
    }
    op("use", || use_it(&mut x))?;
    op("debug", || gen::dbg(&x.dbg()).len())?;
    if let Loaded::Sch(ref s) = x {
        op("sheet", || {
            for sheet in &s.sheets {
                let _ = kicad_parse_gen::schematic::parse_file_for_sheet(s, sheet);
            }
        })?;
    }
    for _ in 0..small(3) {
        let e = an_edit(&x);
        op(&edits::name(&e), || edits::on_loaded(&mut x, &e))?;
    }
    if let Loaded::Fp(ref mut m) = x {
        if chance(1, 3) {
            op("fix", || m.fix(&Config::klc()))?;
        }
    }
    let text = op("print", || x.text())?;
    let saved = op("save", || x.save("/sim/w/again"))?;
    if text.is_ok() && saved.is_ok() {
        let k2 = x.kind().unwrap();
        let r = op("load again", || load(k2, "/sim/w/again", entry % 4))?;
        if let Ok(mut y) = r {
            op("use again", || use_it(&mut y))?;
            probe("loaded_again")
        }
    }
    Ok(())
}
