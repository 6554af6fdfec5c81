//! Footprint library tables and projects: generators and reference serialiser.
use super::sexp::{l, s, T};
use super::{again, few, text};
use crate::choice::{below, chance, pick, small};
use kicad_parse_gen::fp_lib_table::*;

pub fn uri() -> String {
    match below(3) {
        0 => pick(&["${KISYSMOD}/R.pretty", "$KIGITHUB/C.pretty", "~/x.pretty", "/abs/x.pretty", "https://github.com/KiCad/R.pretty", "${A}${B}", "", "C:\\lib\\R.pretty"]).to_string(),
        1 => text(),
        _ => format!("${{KIPRJMOD}}/{}", text()),
    }
}
pub fn lib() -> Lib {
    Lib {
        name: text(),
        type_: if chance(1, 6) { text() } else { pick(&["KiCad", "Github", "Legacy", "Eagle", "Geda-PCB", "x y"]).to_string() },
        uri: uri(),
        options: if chance(1, 3) { text() } else { String::new() },
        descr: text(),
    }
}
pub fn table(max: u32) -> FpLibTable {
    let mut libs = (0..few(max + 1)).map(|_| lib()).collect();
    again(&mut libs);
    FpLibTable { libs }
}
pub fn t_table(t: &FpLibTable) -> T {
    l(
        "fp_lib_table",
        t.libs
            .iter()
            .map(|x| {
                l(
                    "lib",
                    vec![
                        l("name", vec![s(&x.name)]),
                        l("type", vec![s(&x.type_)]),
                        l("uri", vec![s(&x.uri)]),
                        l("options", vec![s(&x.options)]),
                        l("descr", vec![s(&x.descr)]),
                    ],
                )
            })
            .collect(),
    )
}

/// a project file: its text is kept as it is
pub fn project() -> String {
    let nl = if chance(1, 4) { "\r\n" } else { "\n" };
    let mut o = format!("update={}{}", pick(&["Tue 19 May 2015", "22/05/2015 07:44:53", ""]), nl);
    for _ in 0..few(8) {
        match below(3) {
            0 => o.push_str(&format!("[{}]{}", pick(&["general", "eeschema", "cvpcb", "eeschema/libraries"]), nl)),
            1 => o.push_str(&format!("LibName{}={}{}", 1 + below(30), text(), nl)),
            _ => o.push_str(&format!("{}{}", pick(&["version=1", "", " x", "NetIExt=net", "Ω=é", "\"q\"", "\\", "\u{0}", "x\u{0}y"]), nl)),
        }
    }
    match below(10) {
        0 | 1 => {
            o.pop();
        }
        2 => o.push_str(pick(&["\n\n", " ", "\u{0}", "\t\n", "x", "\u{feff}", "\u{c}"])),
        _ => (),
    }
    o
}
