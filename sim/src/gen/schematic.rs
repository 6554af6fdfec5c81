//! Schematics: generator and reference serialiser.
use super::lines::*;
use super::{again, few, many, maybe, word};
use crate::choice::{below, chance, int, pick, small, weighted};
use kicad_parse_gen::schematic::*;

/// The rotation of a component cannot be set through the library's interface: it is kept here,
/// one per component in order.
pub struct Sch {
    pub s: Schematic,
    pub rots: Vec<[i64; 4]>,
}

impl Clone for Sch {
    fn clone(&self) -> Sch {
        Sch { s: clone(&self.s), rots: self.rots.clone() }
    }
}

pub fn clone(s: &Schematic) -> Schematic {
    Schematic {
        filename: s.filename.clone(),
        libraries: s.libraries.clone(),
        description: s.description.clone(),
        elements: s.elements.iter().map(clone_element).collect(),
        sheets: s.sheets.clone(),
        eelayer: s.eelayer.clone(),
    }
}
pub fn clone_element(e: &Element) -> Element {
    match *e {
        Element::Component(ref c) => Element::Component(c.clone()),
        Element::Wire(ref w) => Element::Wire(Wire {
            type_: match w.type_ {
                WireType::Wire => WireType::Wire,
                WireType::Notes => WireType::Notes,
                WireType::Bus => WireType::Bus,
            },
            x1: w.x1,
            y1: w.y1,
            x2: w.x2,
            y2: w.y2,
        }),
        Element::Connection(ref c) => Element::Connection(Connection { x: c.x, y: c.y }),
        Element::NoConnect(ref c) => Element::NoConnect(NoConnect { x: c.x, y: c.y }),
        Element::Text(ref t) => Element::Text(Text {
            t: match t.t {
                TextType::Note => TextType::Note,
                TextType::Global => TextType::Global,
                TextType::Hierarchical => TextType::Hierarchical,
                TextType::Label => TextType::Label,
            },
            x: t.x,
            y: t.y,
            orientation: t.orientation,
            size: t.size,
            shape: t.shape.clone(),
            italic: t.italic,
            thickness: t.thickness,
            text: t.text.clone(),
        }),
        Element::Other(ref s) => Element::Other(s.clone()),
    }
}

/// Debug text without the private parts and the file name
pub fn dbg(s: &Schematic) -> String {
    blank(&super::dbg(&(&s.libraries, &s.description, &s.elements, &s.sheets, &s.eelayer)))
}
pub fn dbg_component(c: &Component) -> String {
    blank(&super::dbg(c))
}
fn blank(s: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("rotation: ") {
        o.push_str(&rest[..i]);
        let e = rest[i..].find('}').map(|e| i + e + 1).unwrap_or(rest.len());
        rest = &rest[e..];
    }
    o.push_str(rest);
    o
}

fn coord() -> i64 {
    match weighted(&[6, 2, 1]) {
        0 => below(240) as i64 * 50,
        1 => below(20000) as i64 - 5000,
        _ => *pick(&[0, 1, -1, 99999, -99999, 2147483647, 2147483648, -2147483649]),
    }
}
pub fn fcoord() -> f64 {
    let c = coord() as f64;
    match weighted(&[18, 2, 1]) {
        0 => c,
        1 => c + 0.5,
        _ => c.rem_euclid(10000.0) + *pick(&[0.0001, 0.123456, 0.30000000000000004, 0.9999, 0.001])
    }
}
fn size() -> i64 {
    *pick(&[60, 50, 40, 1, 0, 120, 35, 1000])
}

/// a value between quotes
pub fn value() -> String {
    match weighted(&[8, 4, 2]) {
        0 => word(),
        1 => pick(&["", "10k 1%", "two words", " lead", "trail ", "a  b", "~", "http://x.y/z?a=b&c", "(x)", "Ω µ é", "a\\nb", "#1", "$Comp", "'q'", "tab\tx", "F 0"]).to_string(),
        _ => {
            let mut s = String::new();
            for _ in 0..many(14, 400) {
                s.push(*pick(&['a', ' ', '0', '-', '.', '/', '%', 'µ', '(', ')', '$', '#', '~', ':']));
            }
            s
        }
    }
}
pub fn reference() -> String {
    if chance(1, 8) {
        word()
    } else {
        format!("{}{}", pick(&["R", "C", "U", "#PWR", "J"]), pick(&["1", "2", "3", "4", "5", "6", "?", "", "01", "1A"]))
    }
}

pub fn orientation() -> Orientation {
    if below(2) == 0 {
        Orientation::Horizontal
    } else {
        Orientation::Vertical
    }
}
pub fn justify() -> Justify {
    match below(5) {
        0 => Justify::Center,
        1 => Justify::Left,
        2 => Justify::Right,
        3 => Justify::Bottom,
        _ => Justify::Top,
    }
}
pub fn field_name(i: i64) -> String {
    match i {
        0 => "Reference".into(),
        1 => "Value".into(),
        2 => "Footprint".into(),
        3 => "UserDocLink".into(),
        _ => match below(3) {
            0 => pick(&["MPN", "Supplier", "Tolerance"]).to_string(),
            1 => pick(&["A b", "x (y)", "Reference", "Value", "", "Ω", "Field4", "Field5", " MPN", "mpn", "Supplier "]).to_string(),
            _ => word(),
        },
    }
}
fn field(i: i64) -> ComponentField {
    ComponentField {
        i,
        value: value(),
        orientation: orientation(),
        x: fcoord(),
        y: fcoord(),
        size: size(),
        visible: below(2) == 0,
        hjustify: justify(),
        vjustify: justify(),
        italic: chance(1, 4),
        bold: chance(1, 4),
        name: field_name(i),
    }
}

pub fn component() -> (Component, [i64; 4]) {
    let mut c = Component::default();
    c.name = word();
    c.reference = reference();
    let unit = if chance(1, 60) {
        *pick(&[99, 100, 127, 256, 999, 1000, 32768])
    } else if chance(1, 4) { 2 + many(6, 60) as i64 } else { 1 };
    c.u = format!("U {} {} {:08X}", unit, 1 + below(2), 0x5646_0000u32 + below(65536));
    c.x = coord();
    c.y = coord();
    for _ in 0..weighted(&[16, 2, 2, 1, 1]) {
        c.ar_path.push(format!("AR Path=\"/{:08X}/{:08X}\" Ref=\"{}\"  Part=\"{}\" ", below(1 << 30), below(1 << 30), reference(), 1 + below(3)));
    }
    again(&mut c.ar_path);
    for i in 0..4 {
        c.fields.push(field(i));
    }
    c.fields[0].value = c.reference.clone();
    c.fields[1].value = if chance(1, 2) { c.name.clone() } else { value() };
    let mut i = 4;
    for _ in 0..many(4, 14) {
        c.fields.push(field(i));
        i += 1 + chance(1, 6) as i64;
    }
    // fields carry their number and can come in any order
    if chance(1, 8) {
        let n = c.fields.len();
        for i in 0..n - 1 {
            let j = i + below((n - i) as u32) as usize;
            c.fields.swap(i, j)
        }
    }
    again(&mut c.fields);
    let rot = match below(5) {
        0 => [1, 0, 0, -1],
        1 => [-1, 0, 0, 1],
        2 => [0, 1, 1, 0],
        3 => [0, -1, -1, 0],
        _ => [int(-1, 1), int(-1, 1), int(-1, 1), int(-2, 2)],
    };
    (c, rot)
}

pub fn sheet(filename: String) -> Sheet {
    let mut s = plain_sheet(filename);
    again(&mut s.labels);
    s
}
fn plain_sheet(filename: String) -> Sheet {
    let n = many(4, 30);
    Sheet {
        x: coord(),
        y: coord(),
        dimx: coord(),
        dimy: coord(),
        unique: format!("{:08X}", below(1 << 31)),
        name: value(),
        name_size: size(),
        filename,
        filename_size: size(),
        labels: (0..n)
            .map(|_| SheetLabel {
                name: value(),
                form: match below(5) {
                    0 => LabelForm::Input,
                    1 => LabelForm::Output,
                    2 => LabelForm::BiDi,
                    3 => LabelForm::TriState,
                    _ => LabelForm::Unspecified,
                },
                side: match below(4) {
                    0 => LabelSide::Left,
                    1 => LabelSide::Right,
                    2 => LabelSide::Top,
                    _ => LabelSide::Bottom,
                },
                x: coord(),
                y: coord(),
                size: size(),
            })
            .collect(),
    }
}

fn text_line() -> String {
    match below(4) {
        3 => value(),
        0 => word(),
        1 => pick(&["", " ", "\t", "  ", "a  b", "\\", "a\tb", "\u{a0}", "a note", "line1\\nline2", " lead", "trail ", "$EndSCHEMATC", "$Comp", "Wire Wire Line", "\"q\"", "Ω", "Text Notes 0 0 0 60 ~ 0", "x"]).to_string(),
        _ => format!("{} {}", word(), word()),
    }
}

pub fn other_element() -> Element {
    match weighted(&[4, 3, 2, 4, 1]) {
        0 => Element::Wire(Wire {
            type_: match below(3) {
                0 => WireType::Wire,
                1 => WireType::Notes,
                _ => WireType::Bus,
            },
            x1: coord(),
            y1: coord(),
            x2: coord(),
            y2: coord(),
        }),
        1 => Element::Connection(Connection { x: coord(), y: coord() }),
        2 => Element::NoConnect(NoConnect { x: coord(), y: coord() }),
        3 => {
            let t = match below(4) {
                0 => TextType::Note,
                1 => TextType::Label,
                2 => TextType::Global,
                _ => TextType::Hierarchical,
            };
            let shape = match t {
                TextType::Global | TextType::Hierarchical => Some(pick(&["Input", "Output", "BiDi", "3State", "UnSpc"]).to_string()),
                _ => None,
            };
            Element::Text(Text {
                t,
                x: coord(),
                y: coord(),
                orientation: below(4) as i64,
                size: size(),
                shape,
                italic: chance(1, 3),
                thickness: *pick(&[0, 12, 10, 1, 100]),
                text: text_line(),
            })
        }
        _ => Element::Other(
            pick(&["Entry Wire Line", "Kmarq B 1 2 \"x\" F=1", "$Bitmap", "$EndBitmap", "$EndData", "Pos 100 200", "\t100  200  300  400", "Unknown 1 2 3 ", " x"]).to_string(),
        ),
    }
}

fn page(n: u32) -> i64 {
    if chance(1, 50) {
        *pick(&[0, 255, 256, 65536, 2147483647, 2147483648, 4294967296])
    } else {
        1 + many(n, 200) as i64
    }
}
pub fn description() -> Description {
    Description {
        size: pick(&["A4", "A3", "USLetter", "User"]).to_string(),
        dimx: 11693 + coord().abs(),
        dimy: 8268,
        title: value(),
        date: value(),
        rev: value(),
        comp: value(),
        comment1: value(),
        comment2: value(),
        comment3: value(),
        comment4: value(),
        sheet: page(9),
        sheet_count: page(20),
    }
}

/// `sheets`: the file names of its sub-sheets
pub fn schematic(max: u32, sheets: &[String]) -> Sch {
    let mut s = Schematic::default();
    let mut rots = vec![];
    for _ in 0..many(4, 40) {
        s.libraries.push(match below(3) {
            0 => word(),
            1 => "power".to_string(),
            _ => pick(&["", "a b", "x-cache", "é", "trail ", " lead", "LIBS:x", "a\tb", "power"]).to_string(),
        });
    }
    again(&mut s.libraries);
    s.eelayer = pick(&["EELAYER 25 0", "EELAYER 24  0", "EELAYER 27 0 ", "EELAYER 43  0 extra words", "EELAYER "]).to_string();
    s.description = description();
    for _ in 0..few(max + 1) {
        if weighted(&[3, 2]) == 0 {
            let (c, r) = component();
            s.elements.push(Element::Component(c));
            rots.push(r);
        } else {
            s.elements.push(other_element())
        }
    }
    if !s.elements.is_empty() && chance(1, 12) {
        let i = below(s.elements.len() as u32) as usize;
        let e = clone_element(&s.elements[i]);
        if let Element::Component(_) = e {
            let n = s.elements[..i].iter().filter(|e| matches!(**e, Element::Component(_))).count();
            let r = rots[n];
            rots.push(r)
        }
        s.elements.push(e)
    }
    for f in sheets {
        s.sheets.push(sheet(f.clone()))
    }
    if sheets.is_empty() {
        if let Some(n) = maybe(1, 4, || 1 + few(2)) {
            for _ in 0..n {
                s.sheets.push(sheet(format!("{}.sch", word())))
            }
            again(&mut s.sheets)
        }
    }
    Sch { s, rots }
}

// ---- reference serialiser

pub fn o_char(o: &Orientation) -> &'static str {
    match *o {
        Orientation::Horizontal => "H",
        Orientation::Vertical => "V",
    }
}
pub fn j_char(o: &Justify) -> &'static str {
    match *o {
        Justify::Center => "C",
        Justify::Right => "R",
        Justify::Left => "L",
        Justify::Bottom => "B",
        Justify::Top => "T",
    }
}

pub fn l_component(c: &Component, r: &[i64; 4], o: &mut Vec<Ln>) {
    o.push(raw("$Comp"));
    o.push(Ln::T(vec![w("L"), w(&c.name), w(&c.reference)]));
    o.push(raw(&c.u));
    o.push(Ln::T(vec![w("P"), Tk::I(c.x), Tk::I(c.y)]));
    for a in &c.ar_path {
        o.push(raw(a));
    }
    for f in &c.fields {
        let mut v = vec![
            w("F"),
            Tk::I(f.i),
            q(&f.value),
            w(o_char(&f.orientation)),
            Tk::N(f.x),
            Tk::N(f.y),
            Tk::I(f.size),
            w(if f.visible { "0000" } else { "0001" }),
            w(j_char(&f.hjustify)),
            w(&format!("{}{}{}", j_char(&f.vjustify), if f.italic { "I" } else { "N" }, if f.bold { "B" } else { "N" })),
        ];
        if f.i > 3 {
            v.push(q(&f.name));
        }
        o.push(Ln::T(v));
    }
    let unit = c.u.split_whitespace().nth(1).unwrap_or("1").parse().unwrap_or(1);
    o.push(Ln::Num(vec![Tk::I(unit), Tk::I(c.x), Tk::I(c.y)]));
    o.push(Ln::Num(r.iter().map(|x| Tk::I(*x)).collect()));
    o.push(raw("$EndComp"));
}

pub fn l_sheet(s: &Sheet, o: &mut Vec<Ln>) {
    o.push(raw("$Sheet"));
    o.push(Ln::T(vec![w("S"), Tk::I(s.x), Tk::I(s.y), Tk::I(s.dimx), Tk::I(s.dimy)]));
    o.push(Ln::T(vec![w("U"), w(&s.unique)]));
    o.push(Ln::T(vec![w("F0"), q(&s.name), Tk::I(s.name_size)]));
    o.push(Ln::T(vec![w("F1"), q(&s.filename), Tk::I(s.filename_size)]));
    for (i, l) in s.labels.iter().enumerate() {
        o.push(Ln::T(vec![
            w(&format!("F{}", i + 2)),
            q(&l.name),
            w(match l.form {
                LabelForm::Input => "I",
                LabelForm::Output => "O",
                LabelForm::BiDi => "B",
                LabelForm::TriState => "T",
                LabelForm::Unspecified => "U",
            }),
            w(match l.side {
                LabelSide::Left => "L",
                LabelSide::Right => "R",
                LabelSide::Top => "T",
                LabelSide::Bottom => "B",
            }),
            Tk::I(l.x),
            Tk::I(l.y),
            Tk::I(l.size),
        ]));
    }
    o.push(raw("$EndSheet"));
}

fn l_other(e: &Element, o: &mut Vec<Ln>) {
    match *e {
        Element::Wire(ref x) => {
            o.push(Ln::T(vec![
                w("Wire"),
                w(match x.type_ {
                    WireType::Wire => "Wire",
                    WireType::Notes => "Notes",
                    WireType::Bus => "Bus",
                }),
                w("Line"),
            ]));
            o.push(Ln::Num(vec![Tk::I(x.x1), Tk::I(x.y1), Tk::I(x.x2), Tk::I(x.y2)]));
        }
        Element::Connection(ref x) => o.push(Ln::T(vec![w("Connection"), w("~"), Tk::I(x.x), Tk::I(x.y)])),
        Element::NoConnect(ref x) => o.push(Ln::T(vec![w("NoConn"), w("~"), Tk::I(x.x), Tk::I(x.y)])),
        Element::Text(ref t) => {
            let mut v = vec![
                w("Text"),
                w(match t.t {
                    TextType::Note => "Notes",
                    TextType::Global => "GLabel",
                    TextType::Hierarchical => "HLabel",
                    TextType::Label => "Label",
                }),
                Tk::I(t.x),
                Tk::I(t.y),
                Tk::I(t.orientation),
                Tk::I(t.size),
            ];
            if let Some(ref s) = t.shape {
                v.push(w(s));
            }
            v.push(w(if t.italic { "Italic" } else { "~" }));
            v.push(Tk::I(t.thickness));
            o.push(Ln::T(v));
            o.push(raw(&t.text));
        }
        Element::Other(ref s) => o.push(raw(s)),
        Element::Component(_) => unreachable!(),
    }
}

fn head(s: &Schematic, o: &mut Vec<Ln>) {
    o.push(raw("EESchema Schematic File Version 2"));
    for x in &s.libraries {
        o.push(raw(&format!("LIBS:{}", x)));
    }
    o.push(raw(&s.eelayer));
    o.push(raw("EELAYER END"));
    let d = &s.description;
    o.push(Ln::T(vec![w("$Descr"), w(&d.size), Tk::I(d.dimx), Tk::I(d.dimy)]));
    o.push(raw("encoding utf-8"));
    o.push(Ln::T(vec![w("Sheet"), Tk::I(d.sheet), Tk::I(d.sheet_count)]));
    for (n, v) in [
        ("Title", &d.title),
        ("Date", &d.date),
        ("Rev", &d.rev),
        ("Comp", &d.comp),
        ("Comment1", &d.comment1),
        ("Comment2", &d.comment2),
        ("Comment3", &d.comment3),
        ("Comment4", &d.comment4),
    ] {
        o.push(Ln::T(vec![w(n), q(v)]));
    }
    o.push(raw("$EndDescr"));
}

/// the lines of a saved file
pub fn lines(m: &Sch) -> Vec<Ln> {
    let mut o = vec![];
    head(&m.s, &mut o);
    let mut r = m.rots.iter();
    for e in &m.s.elements {
        match *e {
            Element::Component(ref c) => l_component(c, r.next().unwrap(), &mut o),
            _ => l_other(e, &mut o),
        }
    }
    for s in &m.s.sheets {
        l_sheet(s, &mut o)
    }
    o.push(raw("$EndSCHEMATC"));
    o
}

/// a stored file with this content: sheets may stand between other elements
pub fn render_file(m: &Sch) -> String {
    let st = if below(3) == 0 { LStyle::plain() } else { LStyle::random() };
    let mut o = vec![];
    head(&m.s, &mut o);
    let mut r = m.rots.iter();
    let mut sh = m.s.sheets.iter().peekable();
    for e in &m.s.elements {
        while sh.peek().is_some() && chance(1, 4) {
            l_sheet(sh.next().unwrap(), &mut o)
        }
        match *e {
            Element::Component(ref c) => l_component(c, r.next().unwrap(), &mut o),
            _ => l_other(e, &mut o),
        }
    }
    for s in sh {
        l_sheet(s, &mut o)
    }
    o.push(raw("$EndSCHEMATC"));
    render(&o, &st)
}
