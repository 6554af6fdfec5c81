//! Symbol libraries: generator and reference serialiser.
use super::lines::*;
use super::schematic::{field_name, j_char, justify, o_char, orientation, value};
use super::{again, few, many, word};
use crate::choice::{below, chance, pick, small, weighted};
use kicad_parse_gen::symbol_lib::*;

fn coord() -> i64 {
    match weighted(&[5, 1]) {
        0 => (below(80) as i64 - 40) * 50,
        _ => *pick(&[0, 1, -1, 99999, -99999, 2147483648, 127, 128]),
    }
}
fn fcoord() -> f64 {
    let c = coord() as f64;
    match weighted(&[18, 2, 1]) {
        0 => c,
        1 => c + 0.5,
        _ => c.rem_euclid(10000.0) + *pick(&[0.0001, 0.123456, 0.30000000000000004, 0.9999, 0.001])
    }
}

fn field(i: i64) -> Field {
    Field {
        i,
        value: value(),
        x: fcoord(),
        y: fcoord(),
        dimension: *pick(&[50, 60, 30, 0, 1, 1000]),
        orientation: orientation(),
        visible: below(2) == 0,
        hjustify: justify(),
        vjustify: justify(),
        italic: chance(1, 4),
        bold: chance(1, 4),
        name: field_name(i),
    }
}

pub fn pin() -> Pin {
    Pin {
        name: if chance(1, 4) { "~".into() } else { word() },
        number: if chance(1, 6) { word() } else { (1 + many(40, 400)).to_string() },
        x: coord(),
        y: coord(),
        len: *pick(&[200, 0, 100, 150, 1, 1270]),
        orientation: match below(4) {
            0 => PinOrientation::Up,
            1 => PinOrientation::Down,
            2 => PinOrientation::Left,
            _ => PinOrientation::Right,
        },
        num_size: *pick(&[50, 30, 0, 1, 100]),
        name_size: *pick(&[50, 30, 0, 1, 100]),
        unit: many(3, 60) as i64,
        convert: below(3) as i64,
        pin_type: match below(11) {
            0 => PinType::Input,
            1 => PinType::Output,
            2 => PinType::Bidi,
            3 => PinType::Tristate,
            4 => PinType::Passive,
            5 => PinType::Unspecified,
            6 => PinType::PowerInput,
            7 => PinType::PowerOutput,
            8 => PinType::OpenCollector,
            9 => PinType::OpenEmitter,
            _ => PinType::NotConnected,
        },
        pin_visible: !chance(1, 3),
        pin_shape: match weighted(&[4, 1, 1, 1, 1, 1, 1, 1, 1]) {
            0 => PinShape::Line,
            1 => PinShape::Inverted,
            2 => PinShape::Clock,
            3 => PinShape::InvertedClock,
            4 => PinShape::InputLow,
            5 => PinShape::ClockLow,
            6 => PinShape::OutputLow,
            7 => PinShape::FallingEdgeClock,
            _ => PinShape::NonLogic,
        },
    }
}

fn draw() -> Draw {
    match weighted(&[5, 2, 2]) {
        0 => Draw::Pin(pin()),
        1 => Draw::Rectangle(Rectangle {
            x1: coord(),
            y1: coord(),
            x2: coord(),
            y2: coord(),
            unit: many(2, 60) as i64,
            convert: below(3) as i64,
            thickness: *pick(&[0, 10, 12]),
            fill: match below(3) {
                0 => Fill::Transparent,
                1 => Fill::FilledForeground,
                _ => Fill::FilledBackground,
            },
        }),
        _ => Draw::Other(
            pick(&[
                "C 0 0 50 0 1 0 N",
                "P 2 0 1 0  0 0  0 100 N",
                "A -26 50 25 1426 -1426 0 1 0 N -46 35 -46 65",
                "T 0 -50 60 60 0 0 0 A~B Normal 0 C C",
                "B 4 0 1 0 0 0 1 1 2 2 3 3 N",
                "P 3 0 1 0  0 0  1 1  2 2 F ",
                "S",
                "#",
                "DRAW",
            ])
            .to_string(),
        ),
    }
}

pub fn symbol() -> Symbol {
    let name = if chance(1, 5) { format!("~{}", word()) } else { word() };
    let mut s = Symbol::new(name, pick(&["R", "U", "#PWR", "C", "#LOGO", "J", "IC", "Q_", "é"]).to_string());
    s.text_offset = *pick(&[0.0, 40.0, 20.0, 12.5, -5.0, 1000.0]);
    s.draw_pinnumber = below(2) == 0;
    s.draw_pinname = below(2) == 0;
    s.unit_count = if chance(1, 50) { *pick(&[26, 255, 256, 1000, 65536, 2147483648]) } else { 1 + many(5, 60) as i64 };
    s.unit_locked = chance(1, 3);
    s.is_power = chance(1, 4);
    for i in 0..4 {
        s.fields.push(field(i));
    }
    s.fields[0].value = s.reference.clone();
    s.fields[1].value = if chance(1, 2) { s.name.trim_start_matches('~').to_string() } else { value() };
    let mut i = 4;
    for _ in 0..many(3, 14) {
        s.fields.push(field(i));
        i += 1;
    }
    // they carry their number and can come in any order
    if chance(1, 8) {
        let n = s.fields.len();
        for i in 2..n - 1 {
            let j = i + below((n - i) as u32) as usize;
            s.fields.swap(i, j)
        }
    }
    if chance(1, 3) {
        for _ in 0..1 + many(3, 30) {
            s.aliases.push(word())
        }
        again(&mut s.aliases)
    }
    if chance(1, 3) {
        for _ in 0..1 + many(2, 20) {
            s.footprint_filters.push(pick(&["R_*", "*0603*", "SOT?23", "SOT-23 *", "Lib:ß_*", "\"q\"", "$X", "*", "a#b"]).to_string())
        }
    }
    for _ in 0..many(7, 80) {
        s.draw.push(draw())
    }
    again(&mut s.draw);
    s
}

pub fn symbol_lib(max: u32) -> SymbolLib {
    let mut symbols = (0..few(max + 1)).map(|_| symbol()).collect();
    again(&mut symbols);
    SymbolLib { symbols }
}

// ---- reference serialiser

pub fn l_field(f: &Field) -> Ln {
    let mut v = vec![
        w(&format!("F{}", f.i)),
        q(&f.value),
        Tk::N(f.x),
        Tk::N(f.y),
        Tk::I(f.dimension),
        w(o_char(&f.orientation)),
        w(if f.visible { "V" } else { "I" }),
        w(j_char(&f.hjustify)),
        w(&format!("{}{}{}", j_char(&f.vjustify), if f.italic { "I" } else { "N" }, if f.bold { "B" } else { "N" })),
    ];
    if f.i > 3 {
        v.push(q(&f.name));
    }
    Ln::T(v)
}

pub fn l_draw(d: &Draw) -> Ln {
    match *d {
        Draw::Other(ref s) => raw(s),
        Draw::Rectangle(ref r) => Ln::T(vec![
            w("S"),
            Tk::I(r.x1),
            Tk::I(r.y1),
            Tk::I(r.x2),
            Tk::I(r.y2),
            Tk::I(r.unit),
            Tk::I(r.convert),
            Tk::I(r.thickness),
            w(match r.fill {
                Fill::FilledForeground => "F",
                Fill::FilledBackground => "f",
                Fill::Transparent => "N",
            }),
        ]),
        Draw::Pin(ref p) => {
            let mut v = vec![
                w("X"),
                w(&p.name),
                w(&p.number),
                Tk::I(p.x),
                Tk::I(p.y),
                Tk::I(p.len),
                w(match p.orientation {
                    PinOrientation::Up => "U",
                    PinOrientation::Down => "D",
                    PinOrientation::Left => "L",
                    PinOrientation::Right => "R",
                }),
                Tk::I(p.num_size),
                Tk::I(p.name_size),
                Tk::I(p.unit),
                Tk::I(p.convert),
                w(match p.pin_type {
                    PinType::Input => "I",
                    PinType::Output => "O",
                    PinType::Bidi => "B",
                    PinType::Tristate => "T",
                    PinType::Passive => "P",
                    PinType::Unspecified => "U",
                    PinType::PowerInput => "W",
                    PinType::PowerOutput => "w",
                    PinType::OpenCollector => "C",
                    PinType::OpenEmitter => "E",
                    PinType::NotConnected => "N",
                }),
            ];
            let sh = match p.pin_shape {
                PinShape::Line => "",
                PinShape::Inverted => "I",
                PinShape::Clock => "C",
                PinShape::InvertedClock => "CI",
                PinShape::InputLow => "L",
                PinShape::ClockLow => "CL",
                PinShape::OutputLow => "V",
                PinShape::FallingEdgeClock => "F",
                PinShape::NonLogic => "X",
            };
            let sh = format!("{}{}", if p.pin_visible { "" } else { "N" }, sh);
            if !sh.is_empty() {
                v.push(w(&sh));
            }
            Ln::T(v)
        }
    }
}

fn l_filters(s: &Symbol, o: &mut Vec<Ln>) {
    if !s.footprint_filters.is_empty() {
        o.push(raw("$FPLIST"));
        for f in &s.footprint_filters {
            o.push(raw(&format!(" {}", f)));
        }
        o.push(raw("$ENDFPLIST"));
    }
}

/// `old`: the order that older files use
fn l_symbol(s: &Symbol, old: bool, o: &mut Vec<Ln>) {
    o.push(raw(&format!("# {}", s.fields[1].value)));
    o.push(raw("#"));
    let yn = |b: bool| w(if b { "Y" } else { "N" });
    o.push(Ln::T(vec![
        w("DEF"),
        w(&s.name),
        w(&s.reference),
        Tk::I(0),
        Tk::N(s.text_offset),
        yn(s.draw_pinnumber),
        yn(s.draw_pinname),
        Tk::I(s.unit_count),
        w(if s.unit_locked { "L" } else { "F" }),
        w(if s.is_power { "P" } else { "N" }),
    ]));
    for f in &s.fields {
        o.push(l_field(f));
    }
    if old {
        l_filters(s, o);
    }
    if !s.aliases.is_empty() {
        let mut v = vec![w("ALIAS")];
        v.extend(s.aliases.iter().map(|a| w(a)));
        o.push(Ln::T(v));
    }
    if !old {
        l_filters(s, o);
    }
    o.push(raw("DRAW"));
    for d in &s.draw {
        o.push(l_draw(d));
    }
    o.push(raw("ENDDRAW"));
    o.push(raw("ENDDEF"));
    o.push(raw("#"));
}

pub fn lines(l: &SymbolLib) -> Vec<Ln> {
    lines_order(l, false)
}
fn lines_order(l: &SymbolLib, old: bool) -> Vec<Ln> {
    let mut o = vec![raw("EESchema-LIBRARY Version 2.3"), raw("#encoding utf-8"), raw("#")];
    for s in &l.symbols {
        l_symbol(s, old, &mut o);
    }
    o.push(raw("#End Library"));
    o
}

pub fn clone(l: &SymbolLib) -> SymbolLib {
    SymbolLib { symbols: l.symbols.clone() }
}

pub fn render_file(l: &SymbolLib) -> String {
    let st = if below(3) == 0 { LStyle::plain() } else { LStyle::random() };
    render(&lines_order(l, chance(1, 4)), &st)
}
