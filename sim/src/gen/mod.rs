//! Generators of documents and their independent reference serialisers.
pub mod footprint;
pub mod layout;
pub mod lines;
pub mod schematic;
pub mod sexp;
pub mod symbol_lib;
pub mod table;

use crate::choice::{below, chance, pick, small, weighted};

/// a number as found in files: finitely many decimals
pub fn num() -> f64 {
    let v = match weighted(&[6, 6, 2, 1, 1]) {
        0 => below(100) as f64 / 4.0,
        1 => below(200_000) as f64 / 1000.0,
        2 => below(1_000_000_000) as f64 / 1e6,
        3 => *pick(&[0.0, 0.1, 0.001, 0.000001, 1e-9, 90.0, 180.0, 270.0, 360.0, 0.30000000000000004, 1e9, 123456.789012, 0.12345678901, 2.675, 1234567.0625, 1e15, 65536.0]),
        _ => 0.0,
    };
    if chance(1, 3) && v != 0.0 {
        -v
    } else {
        v
    }
}
pub fn pos() -> f64 {
    let v = num().abs();
    if v == 0.0 {
        0.15
    } else {
        v
    }
}
pub fn nonneg() -> f64 {
    num().abs()
}
pub fn angle() -> f64 {
    match below(4) {
        0 => 0.0,
        1 => *pick(&[90.0, 180.0, 270.0, -90.0, -45.0, 360.0, 359.9, -180.0]),
        2 => below(360) as f64,
        _ => below(3600) as f64 / 10.0,
    }
}

const WORDS: &[&str] = &[
    "A", "R", "C12", "GND", "VCC", "+3V3", "Net-(R1-Pad1)", "/top/SIG", "/a/b/CLK", "/a/CLK", "~RESET", "REF**", "%R",
    "smd", "10k", "hide", "locked", "yes", "mirror", "-", "0", "1", "-1", "1.5", "layer", "at", "é", "Ω", "日本",
    "a.b", "x=y", "${KISYS3DMOD}/r.wrl", "$(X)", "a:b", "a,b", "a;b", "a/b", "'", "`", "a_b", "100%", "{x}", "[y]",
    "oval", "italic", "blind", "reference", "value", "user", "007", "1.50", "1e5", "+5", ".5", "nan", "0x1F", "null", "true", "NET", "a'b", "--", "é\u{301}", "\u{1f600}",
    "kicad", "KiCad", "KICAD", "legacy", "github", "url", "none", "None", "NC", "N/C", "?", "*", "Y", "N", "no", "false", "off", "on", "ON",
    "F.Cu", "B.Cu", "F.SilkS", "*.Cu", "*.Mask", "F&B.Cu", "Dwgs.User", "thru_hole", "np_thru_hole", "rect", "circle", "roundrect", "virtual",
    "Reference", "Value", "Footprint", "Datasheet", "fp_text", "pad", "net", "module", "general", "setup", "lib", "uri", "descr",
    "#PWR01", "#FLG?", "R?", "U1A", "IC1", "J10", "r.kicad_mod", "R.pretty", "R.wrl", "R.step", "../x", "./x", "LICENSE", "v4.0", "2018-01-01", "12:30", "a@b", "a|b", "a^b", "$", "$$", "!", "a!", "inf", "-0", "1e400", "00", "1_000",
];
const SPACED: &[&str] = &["", " ", "a b", " lead", "trail ", "two  spaces", "(par)", "a(b", "tab\there", "SOIC 8 (3.9mm)", ")", "  ", " a ", "a\u{a0}b", "a\u{3000}b", "# no comment", "(module x)", "%"];

/// a symbolic-expression string
pub fn text() -> String {
    match weighted(&[10, 3, 2]) {
        0 => pick(WORDS).to_string(),
        1 => pick(SPACED).to_string(),
        _ => {
            let n = if !chance(1, 60) { 1 + small(12) } else if chance(1, 8) { 2000 + below(4000) } else { 100 + below(1000) };
            let mut s = String::new();
            for _ in 0..n {
                s.push(*pick(&['a', 'Z', '0', '9', '-', '_', '.', '/', '+', ' ', '(', ')', 'µ', '%', '#', '*', '&', '<', '=', '~']));
            }
            s
        }
    }
}
/// a word without blanks or parentheses
pub fn word() -> String {
    match weighted(&[8, 2]) {
        0 => pick(&["A", "B", "R", "C12", "GND", "VCC", "+3V3", "U1", "x-y", "a.b", "é", "Ω1", "n/a", "10k", "_", "7", "-", "R_0603", "74HC00", "~A~", "N", "Y", "F", "L", "I", "B", "0", "1", "00", "1.0", "NC", "#PWR01", "U?", "R10", "r1", "Eeschema", "kicad", "A_B", "a:b", "V+", "V-", "D0", "IN", "Net"]).to_string(),
        _ => {
            let mut s = String::new();
            for _ in 0..1 + many(10, 200) {
                s.push(*pick(&['a', 'Z', '0', '9', '-', '_', '.', '/', '+', 'µ', '=', '&']));
            }
            s
        }
    }
}
/// one of a few net names, so that they coincide
pub fn net_name() -> String {
    if chance(1, 10) {
        text()
    } else {
        pick(&["GND", "VCC", "/top/SIG", "/top/SIG2", "Net-(R1-Pad1)", "Net-(R1-Pad2)", "/a/b/CLK", "", "GN", "GND ", "gnd", "/top/top/X", "/a/a/a/Y", "Net-(", "Net-(R1", "Net-(R1-Pad1", "Net-(U3-A7)", "Net-(R1-Pad2)x"]).to_string()
    }
}
/// net numbers, mostly few
pub fn net_num() -> i64 {
    if chance(1, 12) {
        *pick(&[99i64, 255, 256, 1000, 32768, 65536, 2147483647, 2147483648, 4294967301])
    } else {
        below(40) as i64
    }
}
/// one in so many collections is a big one, instead of the usual odds
static ODDS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

/// big collections are frequent, or as seldom as usual
pub fn grow(on: bool) {
    ODDS.store(if on { 5 } else { 0 }, std::sync::atomic::Ordering::SeqCst)
}
fn grown() -> bool {
    match ODDS.load(std::sync::atomic::Ordering::SeqCst) {
        0 => false,
        n => chance(1, n),
    }
}
/// big collections left in this run
static BIG: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(3);

fn big() -> u32 {
    use std::sync::atomic::Ordering::SeqCst;
    let n = BIG.load(SeqCst);
    if n == 0 {
        return 0;
    }
    BIG.store(n - 1, SeqCst);
    crate::props::probe("big_collection");
    100 + below(500)
}
/// up to `n`, seldom more
pub fn many(n: u32, more: u32) -> u32 {
    if grown() {
        n + big()
    } else if !chance(1, 50) {
        small(n)
    } else if chance(1, 12) {
        n + big()
    } else {
        n + below(more)
    }
}
/// up to `n`, very seldom hundreds
pub fn few(n: u32) -> u32 {
    if grown() || chance(1, 400) {
        n + big()
    } else {
        small(n)
    }
}
/// seldom, one of them a second time: next to itself or at the end
pub fn again<X: Clone>(v: &mut Vec<X>) {
    if !v.is_empty() && chance(1, 12) {
        let i = below(v.len() as u32) as usize;
        let x = v[i].clone();
        let at = if chance(1, 2) { i } else { v.len() };
        v.insert(at, x)
    }
}
fn swap_case(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
/// a word equal to this one or easily taken for it
pub fn near_word(s: &str) -> String {
    let n = s.chars().count();
    match below(5) {
        0 => s.to_string(),
        1 => swap_case(s),
        2 => format!("{}{}", s, pick(&["1", "x", "0", "_", "."])),
        3 if n > 1 => s.chars().take(n - 1).collect(),
        _ if n > 1 => s.chars().skip(1).collect(),
        _ => s.to_string(),
    }
}
/// a text equal to this one or easily taken for it
pub fn near(s: &str) -> String {
    match below(6) {
        0 => format!("{} ", s),
        1 => format!(" {}", s),
        2 => s.trim().to_string(),
        3 => s.replace(' ', "  "),
        _ if s.is_empty() => " ".to_string(),
        _ => near_word(s),
    }
}
pub fn maybe<X>(num: u32, den: u32, f: impl FnOnce() -> X) -> Option<X> {
    if chance(num, den) {
        Some(f())
    } else {
        None
    }
}
pub fn stamp() -> i64 {
    match below(4) {
        0 => below(16) as i64,
        1 => 0x59C0_0000 + below(1 << 20) as i64,
        2 => *pick(&[0xFFFF_FFFF, 0x8000_0000, 0x7FFF_FFFF, 0x1_2345_6789, 0x7FFF_FFFF_FFFF_FFFF, 0x10]),
        _ => (below(1 << 31) as i64) << 1,
    }
}

/// Debug representation with the sign of zero and of the not-written dropped
pub fn dbg<X: std::fmt::Debug>(x: &X) -> String {
    format!("{:?}", x).replace("-0.0", "0.0")
}
