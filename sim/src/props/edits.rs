//! Edits and lookups of documents as data: applied to the model by code of our own and to the
//! loaded document through the library.  Both give the outcome as a text.
use super::doc::{Doc, Kind, Loaded};
use crate::choice::{below, chance, pick, small, weighted};
use crate::gen::{self, dbg, footprint as gfp, layout as gpcb, maybe, schematic as gsch, symbol_lib as glib, table as gtab};
use kicad_parse_gen::footprint as fp;
use kicad_parse_gen::footprint::{Flip, Rotate};
use kicad_parse_gen::layout as pcb;
use kicad_parse_gen::schematic as sch;
use kicad_parse_gen::symbol_lib as lib;
use kicad_parse_gen::{fp_lib_table as tab, Adjust};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum FpEd {
    SetRef(String, String),
    Move(bool, f64, f64),
    RenameNet(String, String),
    Flip,
    Rotate(f64),
    Append(fp::Element),
    Remove(usize),
    Replace(usize, fp::Element),
    SetName(String),
    /// which text, through which access, what
    Text(&'static str, u32, TextEd),
    /// of the n-th pad
    Pad(usize, PadEd),
    /// appended, made by constructors
    New(fp::Element),
    Query(String),
}
#[derive(Clone, Debug)]
pub enum PadEd {
    Net(fp::Net),
    Drill(fp::Drill),
    Rename(String, String),
    Layer(fp::Layer),
}
#[derive(Clone, Debug)]
pub enum TextEd {
    Value(String),
    Hide(bool),
    Layer(fp::Layer),
    Effects(fp::Effects),
}

#[derive(Clone, Debug)]
pub enum PcbEd {
    Move(f64, f64),
    AddNet(i64, &'static str),
    AddClass(&'static str, pcb::NetClass),
    Module(String, FpEd),
    Setup(&'static str, String),
    Page(String),
    Version(i64),
    Host(pcb::Host),
    General(pcb::General),
    PushLayer(pcb::Layer),
    HideLayer(usize, bool),
    Plot(String, String),
    Push(pcb::Element),
    Remove(usize),
    Swap(usize, usize),
    ChangeNet(String, String),
    ReplaceBlock(String, String),
    Query(String),
}

#[derive(Clone, Debug)]
pub enum CompEd {
    Reference(String),
    Name(String),
    Field(String, String),
    AddOrUpdate(String, String, f64, f64),
    AddNew(String, String, f64, f64),
    Place(i64, i64),
    Unit(String),
}
#[derive(Debug)]
pub enum SchEd {
    Component(String, CompEd),
    All(CompEd),
    SheetCount,
    Describe(u32, String),
    Library(Option<String>),
    Push(sch::Element),
    PushComponent(sch::Component),
    Remove(usize),
    PushSheet(sch::Sheet),
    SheetName(usize, String),
    RemoveSheet(usize),
    Query(String, String),
}

#[derive(Clone, Debug)]
pub enum LibEd {
    Name(usize, String),
    FieldValue(usize, usize, String),
    FieldLook(usize, usize, bool, bool, bool, f64),
    PinName(usize, usize, String),
    PinPlace(usize, usize, i64, i64, bool),
    PinKind(usize, usize, lib::PinType, lib::PinShape, lib::PinOrientation),
    Push(lib::Symbol),
    Remove(usize),
    Alias(usize, String),
    Filter(usize, String),
    Draw(usize, lib::Draw),
    Flags(usize, bool, bool, i64),
    Find(String),
}

#[derive(Clone, Debug)]
pub enum TabEd {
    Push(tab::Lib),
    Remove(usize),
    Change(usize, u32, String),
}

#[derive(Debug)]
pub enum Ed {
    Fp(FpEd),
    Pcb(PcbEd),
    Sch(SchEd),
    Lib(LibEd),
    Tab(TabEd),
    Nothing,
}

// ---- drawing an edit for a document

fn some_ref(refs: &[String]) -> String {
    if !refs.is_empty() && chance(3, 4) {
        let r = pick(refs);
        if chance(1, 6) {
            gen::near(r)
        } else {
            r.clone()
        }
    } else {
        pick(&["R1", "R2", "U1", "R", "R11", "", "REF**", "C9"]).to_string()
    }
}
fn fp_refs(m: &fp::Module) -> Vec<String> {
    m.elements
        .iter()
        .filter_map(|e| match *e {
            fp::Element::FpText(ref t) if t.name == "reference" => Some(t.value.clone()),
            _ => None,
        })
        .collect()
}
fn idx(n: usize) -> usize {
    below(n.max(1) as u32) as usize
}
fn rot() -> f64 {
    *pick(&[90.0, -90.0, 180.0, 270.0, 45.0, 0.0, 12.5, -180.0, 359.0])
}

pub fn fp_ed(m: &fp::Module) -> FpEd {
    let refs = fp_refs(m);
    match weighted(&[3, 3, 3, 3, 3, 2, 1, 1, 1, 3, 5, 2, 1]) {
        0 => FpEd::SetRef(some_ref(&refs), if chance(1, 3) { some_ref(&refs) } else { gen::text() }),
        1 => FpEd::Move(chance(1, 2), gen::num(), gen::num()),
        2 => FpEd::RenameNet(gen::net_name(), gen::net_name()),
        3 => FpEd::Flip,
        4 => FpEd::Rotate(rot()),
        5 => FpEd::Append(gfp::element()),
        6 if !m.elements.is_empty() => FpEd::Remove(idx(m.elements.len())),
        7 if !m.elements.is_empty() => FpEd::Replace(idx(m.elements.len()), gfp::element()),
        8 => FpEd::SetName(gen::text()),
        9 => FpEd::Text(
            pick(&["reference", "value", "user"]),
            below(2),
            match below(4) {
                0 => TextEd::Value(gen::text()),
                1 => TextEd::Hide(chance(1, 2)),
                2 => TextEd::Layer(gfp::layer()),
                _ => TextEd::Effects(gfp::effects()),
            },
        ),
        11 => {
            let pads: Vec<&fp::Pad> = m.elements.iter().filter_map(|e| if let fp::Element::Pad(ref p) = *e { Some(p) } else { None }).collect();
            let i = idx(pads.len());
            let old = pads.get(i).and_then(|p| p.net.as_ref()).map(|n| n.name.0.clone());
            FpEd::Pad(
                i,
                match below(4) {
                    0 => PadEd::Net(gfp::net()),
                    1 => PadEd::Drill(gfp::drill()),
                    2 => PadEd::Layer(gfp::layer()),
                    _ => PadEd::Rename(if chance(2, 3) { old.unwrap_or_default() } else { gen::net_name() }, gen::net_name()),
                },
            )
        }
        12 => FpEd::New(if chance(1, 2) { fp::Element::Pad(gfp::pad()) } else { fp::Element::FpText(gfp::fp_text()) }),
        _ => FpEd::Query(some_ref(&refs)),
    }
}

/// the n-th pad
fn nth_pad(m: &mut fp::Module, n: usize) -> Option<&mut fp::Pad> {
    m.elements.iter_mut().filter_map(|e| if let fp::Element::Pad(ref mut p) = *e { Some(p) } else { None }).nth(n)
}
/// a copy made by the constructors of the library
fn made(e: &fp::Element) -> fp::Element {
    match *e {
        fp::Element::Pad(ref p) => {
            let mut q = fp::Pad::new(p.name.clone(), p.t.clone(), p.shape.clone());
            q.at = fp::At::new(p.at.x, p.at.y, p.at.rot);
            q.size = fp::Xy::new(p.size.x, p.size.y, fp::XyType::Size);
            for l in &p.layers.layers {
                q.layers.append(l.clone())
            }
            if let Some(ref n) = p.net {
                q.set_net(n.clone())
            }
            if let Some(ref d) = p.drill {
                q.set_drill(d.clone())
            }
            fp::Element::Pad(q)
        }
        fp::Element::FpText(ref t) => {
            let mut u = fp::FpText::new(t.name.clone(), t.value.clone());
            u.at = fp::At::new(t.at.x, t.at.y, t.at.rot);
            u.set_layer(&t.layer);
            u.set_effects(&fp::Effects::from_font(t.effects.font.clone(), t.effects.justify.clone()));
            fp::Element::FpText(u)
        }
        ref e => e.clone(),
    }
}

fn pcb_refs(l: &pcb::Layout) -> Vec<String> {
    let mut v = vec![];
    for e in &l.elements {
        if let pcb::Element::Module(ref m) = *e {
            v.extend(fp_refs(m))
        }
    }
    v
}
fn first_module<'a>(l: &'a pcb::Layout, r: &str) -> Option<&'a fp::Module> {
    l.elements.iter().find_map(|e| match *e {
        pcb::Element::Module(ref m) if fp_refs(m).iter().any(|x| x == r) => Some(m),
        _ => None,
    })
}

pub fn pcb_ed(l: &pcb::Layout) -> PcbEd {
    let refs = pcb_refs(l);
    match weighted(&[3, 2, 2, 6, 3, 1, 1, 1, 1, 1, 1, 1, 2, 1, 1, 2, 2, 5]) {
        0 => PcbEd::Move(gen::num(), gen::num()),
        1 => PcbEd::AddNet(below(100) as i64, pick(&["GND", "VCC", "", "a b", "Net-(C1-Pad2)"])),
        2 => PcbEd::AddClass(pick(&["Default", "Power", "a b", ""]), gpcb::net_class()),
        3 => {
            let r = some_ref(&refs);
            let e = match first_module(l, &r) {
                Some(m) => fp_ed(m),
                None => FpEd::Flip,
            };
            PcbEd::Module(r, e)
        }
        4 => PcbEd::Setup(pick(&["last_trace_width", "grid_origin", "new_thing", "x", "visible_elements"]), gen::text()),
        5 => PcbEd::Page(gen::text()),
        6 => PcbEd::Version(below(20_000_000) as i64),
        7 => PcbEd::Host(pcb::Host { tool: gen::text(), build: gen::text() }),
        8 => PcbEd::General(pcb::General {
            links: gpcb::int(),
            no_connects: gpcb::int(),
            area: pcb::Area { x1: gen::num(), y1: gen::num(), x2: gen::num(), y2: gen::num() },
            thickness: gen::num(),
            drawings: gpcb::int(),
            tracks: gpcb::int(),
            zones: gpcb::int(),
            modules: gpcb::int(),
            nets: gpcb::int(),
        }),
        9 => PcbEd::PushLayer(pcb::Layer {
            num: below(50) as i64,
            layer: gfp::layer(),
            layer_type: if chance(1, 2) { pcb::LayerType::Power } else { pcb::LayerType::Jumper },
            hide: chance(1, 2),
        }),
        10 if !l.layers.is_empty() => PcbEd::HideLayer(idx(l.layers.len()), chance(1, 2)),
        11 => PcbEd::Plot(pick(&["hpglpendiameter", "usegerberextensions", "outputdirectory"]).to_string(), gen::text()),
        12 => PcbEd::Push(gpcb::element(3)),
        13 if !l.elements.is_empty() => PcbEd::Remove(idx(l.elements.len())),
        14 if !l.elements.is_empty() => PcbEd::Swap(idx(l.elements.len()), idx(l.elements.len())),
        15 => PcbEd::ChangeNet(gen::net_name(), gen::net_name()),
        16 => PcbEd::ReplaceBlock(pick(&["top", "a", "b", "", "SIG"]).to_string(), pick(&["sub", "a", "x y", ""]).to_string()),
        _ => PcbEd::Query(some_ref(&refs)),
    }
}

fn components(s: &sch::Schematic) -> Vec<&sch::Component> {
    s.elements
        .iter()
        .filter_map(|e| match *e {
            sch::Element::Component(ref c) => Some(c),
            _ => None,
        })
        .collect()
}
/// `c`: a component whose content the edit may come near to
fn comp_ed(c: Option<&sch::Component>) -> CompEd {
    let f = c.filter(|c| !c.fields.is_empty() && chance(1, 2)).map(|c| pick(&c.fields).clone());
    let field = || match f {
        Some(ref f) if chance(1, 6) => gen::near(&f.name),
        Some(ref f) => f.name.clone(),
        None => pick(&["MPN", "Supplier", "Tolerance", "Reference", "Value", "Footprint", "UserDocLink", "A b", "Ω", "New Field"]).to_string(),
    };
    let value = || match f {
        Some(ref f) if chance(1, 2) => gen::near(&f.value),
        _ => gsch::value(),
    };
    match weighted(&[3, 2, 3, 4, 2, 1, 1]) {
        0 => CompEd::Reference(match c {
            Some(c) if chance(1, 4) => gen::near_word(&c.reference),
            _ => gsch::reference(),
        }),
        1 => CompEd::Name(match c {
            Some(c) if chance(1, 4) => gen::near_word(&c.name),
            _ => gen::word(),
        }),
        2 => CompEd::Field(field(), value()),
        3 => CompEd::AddOrUpdate(field(), value(), gsch::fcoord(), below(1000) as f64),
        4 => CompEd::AddNew(field(), value(), below(1000) as f64, -gsch::fcoord()),
        5 => CompEd::Place(below(5000) as i64, below(5000) as i64),
        _ => CompEd::Unit(format!("U {} 1 {:08X}", 1 + below(12), below(1 << 30))),
    }
}
pub fn sch_ed(s: &sch::Schematic) -> SchEd {
    let refs: Vec<String> = components(s).iter().map(|c| c.reference.clone()).collect();
    let cs = components(s);
    match weighted(&[8, 3, 2, 2, 1, 2, 1, 1, 1, 1, 1, 6]) {
        0 => {
            let r = some_ref(&refs);
            let e = comp_ed(cs.iter().find(|c| c.reference == r).map(|c| *c));
            SchEd::Component(r, e)
        }
        1 => SchEd::All(comp_ed(if cs.is_empty() { None } else { Some(*pick(&cs)) })),
        2 => SchEd::SheetCount,
        3 => SchEd::Describe(below(8), gsch::value()),
        4 => SchEd::Library(if chance(1, 2) { Some(gen::word()) } else { None }),
        5 => SchEd::Push(gsch::other_element()),
        6 => {
            let (c, _) = gsch::component();
            SchEd::PushComponent(c)
        }
        7 if !s.elements.is_empty() => SchEd::Remove(idx(s.elements.len())),
        8 => SchEd::PushSheet(gsch::sheet("missing.sch".into())),
        9 if !s.sheets.is_empty() => SchEd::SheetName(idx(s.sheets.len()), gsch::value()),
        10 if !s.sheets.is_empty() => SchEd::RemoveSheet(idx(s.sheets.len())),
        _ => {
            let f = match cs.is_empty() {
                false if chance(1, 3) => {
                    let c = *pick(&cs);
                    match c.fields.is_empty() {
                        true => String::new(),
                        false => gen::near(&pick(&c.fields).name),
                    }
                }
                _ => pick(&["MPN", "Reference", "Value", "Supplier", "none", ""]).to_string(),
            };
            SchEd::Query(some_ref(&refs), f)
        }
    }
}

fn pins(s: &lib::Symbol) -> Vec<usize> {
    s.draw
        .iter()
        .enumerate()
        .filter_map(|(i, d)| match *d {
            lib::Draw::Pin(_) => Some(i),
            _ => None,
        })
        .collect()
}
pub fn lib_ed(l: &lib::SymbolLib) -> LibEd {
    if l.symbols.is_empty() {
        return if chance(1, 2) { LibEd::Push(glib::symbol()) } else { LibEd::Find("R".into()) };
    }
    let i = idx(l.symbols.len());
    let s = &l.symbols[i];
    let ps = pins(s);
    match weighted(&[4, 3, 2, 3, 2, 2, 1, 1, 1, 1, 1, 1, 5]) {
        0 if chance(1, 4) => {
            let n = gen::near_word(s.name.trim_start_matches('~'));
            let n = n.trim_start_matches('~');
            LibEd::Name(i, if n.is_empty() { "x".into() } else { n.to_string() })
        }
        0 => LibEd::Name(i, gen::word().trim_start_matches('~').to_string() + "x"),
        1 if !s.fields.is_empty() => {
            let j = idx(s.fields.len());
            LibEd::FieldValue(i, j, if chance(1, 4) { gen::near(&s.fields[j].value) } else { gsch::value() })
        }
        2 if !s.fields.is_empty() => LibEd::FieldLook(i, idx(s.fields.len()), chance(1, 2), chance(1, 2), chance(1, 2), below(500) as f64),
        3 if !ps.is_empty() => LibEd::PinName(i, *pick(&ps), gen::word()),
        4 if !ps.is_empty() => LibEd::PinPlace(i, *pick(&ps), below(1000) as i64, -(below(1000) as i64), chance(1, 2)),
        5 if !ps.is_empty() => {
            let p = glib::pin();
            LibEd::PinKind(i, *pick(&ps), p.pin_type, p.pin_shape, p.orientation)
        }
        6 => LibEd::Push(glib::symbol()),
        7 => LibEd::Remove(i),
        8 => LibEd::Alias(i, gen::word()),
        9 => LibEd::Filter(i, "SOT*".into()),
        10 => LibEd::Draw(i, lib::Draw::Pin(glib::pin())),
        11 => LibEd::Flags(i, chance(1, 2), chance(1, 2), 1 + below(4) as i64),
        _ => LibEd::Find(match weighted(&[3, 1, 1]) {
            0 => s.name.clone(),
            1 => gen::near_word(&s.name),
            _ => gen::word(),
        }),
    }
}
pub fn tab_ed(t: &tab::FpLibTable) -> TabEd {
    match weighted(&[2, 1, 3]) {
        1 if !t.libs.is_empty() => TabEd::Remove(idx(t.libs.len())),
        2 if !t.libs.is_empty() => TabEd::Change(idx(t.libs.len()), below(5), if chance(1, 4) { gen::near(&pick(&t.libs).name) } else { gen::text() }),
        _ => TabEd::Push(gtab::lib()),
    }
}

pub fn draw(d: &Doc) -> Ed {
    match *d {
        Doc::Fp(ref m) => Ed::Fp(fp_ed(m)),
        Doc::Pcb(ref l) => Ed::Pcb(pcb_ed(l)),
        Doc::Sch(ref s) => Ed::Sch(sch_ed(&s.s)),
        Doc::Lib(ref l) => Ed::Lib(lib_ed(l)),
        Doc::Tab(ref t) => Ed::Tab(tab_ed(t)),
        Doc::Pro(_) => Ed::Nothing,
    }
}
/// several edits; more of them when the document is small
pub fn how_many() -> u32 {
    small(6)
}

// ---- on the model

fn flip_y(y: &mut f64) {
    *y = -*y
}
fn flip_at(a: &mut fp::At) {
    flip_y(&mut a.y);
    a.rot = 360.0 - a.rot;
}
fn flip_layer(l: &mut fp::Layer) {
    if l.side == fp::LayerSide::Front {
        l.side = fp::LayerSide::Back
    } else if l.side == fp::LayerSide::Back {
        l.side = fp::LayerSide::Front
    }
}
fn flip_element(e: &mut fp::Element) {
    use fp::Element::*;
    match *e {
        Pad(ref mut p) => {
            flip_at(&mut p.at);
            for l in &mut p.layers.layers {
                flip_layer(l)
            }
        }
        FpText(ref mut t) => {
            flip_at(&mut t.at);
            flip_layer(&mut t.layer);
            t.effects.justify = if t.effects.justify.is_none() { Some(fp::Justify::Mirror) } else { None };
        }
        FpLine(ref mut x) => {
            flip_y(&mut x.start.y);
            flip_y(&mut x.end.y);
            flip_layer(&mut x.layer)
        }
        FpArc(ref mut x) => {
            flip_y(&mut x.start.y);
            flip_y(&mut x.end.y);
            flip_layer(&mut x.layer)
        }
        FpCircle(ref mut x) => {
            flip_y(&mut x.center.y);
            flip_y(&mut x.end.y);
            flip_layer(&mut x.layer)
        }
        FpPoly(ref mut x) => {
            for p in &mut x.pts.elements {
                flip_y(&mut p.y)
            }
            flip_layer(&mut x.layer)
        }
        At(ref mut a) => flip_at(a),
        Layer(ref mut l) => flip_layer(l),
        _ => (),
    }
}
fn turn(a: &mut fp::At, r: f64) {
    a.rot += r;
    if a.rot >= 360.0 {
        a.rot -= 360.0
    }
    if a.rot < 0.0 {
        a.rot += 360.0
    }
}
fn text_ed(t: &mut fp::FpText, e: &TextEd) {
    match *e {
        TextEd::Value(ref v) => t.value = v.clone(),
        TextEd::Hide(h) => t.hide = h,
        TextEd::Layer(ref l) => t.layer = l.clone(),
        TextEd::Effects(ref l) => t.effects = l.clone(),
    }
}

fn fp_lookup(m: &fp::Module, r: &str) -> String {
    let text = |n: &str| {
        m.elements.iter().find_map(|e| match *e {
            fp::Element::FpText(ref t) if t.name == n => Some(dbg(t)),
            _ => None,
        })
    };
    let first_at = m.elements.iter().find_map(|e| match *e {
        fp::Element::At(ref a) => Some(a.clone()),
        _ => None,
    });
    let a = first_at.unwrap_or(fp::At::new(0.0, 0.0, 0.0));
    let pads: Vec<String> = m.elements.iter().filter_map(|e| if let fp::Element::Pad(ref p) = *e { Some(dbg(p)) } else { None }).collect();
    let lines: Vec<String> = m.elements.iter().filter_map(|e| if let fp::Element::FpLine(ref p) = *e { Some(dbg(p)) } else { None }).collect();
    let front = m.elements.iter().find_map(|e| match *e {
        fp::Element::Layer(ref l) => Some(l.side == fp::LayerSide::Front),
        _ => None,
    });
    let tstamp = m.elements.iter().find_map(|e| if let fp::Element::TStamp(x) = *e { Some(x) } else { None });
    let tedit = m.elements.iter().find_map(|e| if let fp::Element::TEdit(x) = *e { Some(x) } else { None });
    let smd = m.elements.iter().any(|e| matches!(*e, fp::Element::Attr(ref a) if a == "smd"));
    let reference = m.elements.iter().find_map(|e| match *e {
        fp::Element::FpText(ref t) if t.name == "reference" => Some(t.value.clone()),
        _ => None,
    });
    format!(
        "{:?}|{:?}|{:?}|{:?}|{:?}|{:?}|{}|{:?}|{:?}|{:?}|{}|{}|{:?}|{:?}|{}",
        fp_refs(m).iter().any(|x| x == r),
        reference,
        text("reference"),
        text("value"),
        text("user"),
        text("x"),
        smd,
        tstamp,
        tedit,
        (a.x + 0.0, a.y + 0.0),
        a.rot,
        front.unwrap_or(true),
        pads,
        lines,
        m.elements.len()
    )
}
fn fp_query(m: &fp::Module, r: &str) -> String {
    let (x, y) = m.at();
    format!(
        "{:?}|{:?}|{:?}|{:?}|{:?}|{:?}|{}|{:?}|{:?}|{:?}|{}|{}|{:?}|{:?}|{}",
        m.is_reference_with_name(r),
        m.get_reference(),
        m.get_reference_text().map(dbg),
        m.get_value_text().map(dbg),
        m.get_reference2_text().map(dbg),
        m.get_text("x").map(dbg),
        m.has_smd_attr(),
        m.get_tstamp(),
        m.get_tedit(),
        (x + 0.0, y + 0.0),
        m.get_rotation(),
        m.is_front(),
        m.pads().iter().map(|p| dbg(*p)).collect::<Vec<_>>(),
        m.lines().iter().map(|p| dbg(*p)).collect::<Vec<_>>(),
        m.elements.len()
    )
}

fn fp_model(m: &mut fp::Module, e: &FpEd) -> String {
    match *e {
        FpEd::SetRef(ref a, ref b) => {
            for e in &mut m.elements {
                if let fp::Element::FpText(ref mut t) = *e {
                    if t.name == "reference" && &t.value == a {
                        t.value = b.clone()
                    }
                }
            }
        }
        FpEd::Move(_, x, y) => {
            for e in &mut m.elements {
                if let fp::Element::At(ref mut a) = *e {
                    a.x += x;
                    a.y += y;
                }
            }
        }
        FpEd::RenameNet(ref a, ref b) => {
            for e in &mut m.elements {
                if let fp::Element::Pad(ref mut p) = *e {
                    if let Some(ref mut n) = p.net {
                        if &n.name.0 == a {
                            n.name.0 = b.clone()
                        }
                    }
                }
            }
        }
        FpEd::Flip => m.elements.iter_mut().for_each(flip_element),
        FpEd::Rotate(r) => {
            for e in &mut m.elements {
                match *e {
                    fp::Element::Pad(ref mut p) => turn(&mut p.at, r),
                    fp::Element::FpText(ref mut p) => turn(&mut p.at, r),
                    fp::Element::At(ref mut p) => turn(p, r),
                    _ => (),
                }
            }
        }
        FpEd::Append(ref e) => m.elements.push(e.clone()),
        FpEd::Remove(i) => {
            m.elements.remove(i);
        }
        FpEd::Replace(i, ref e) => m.elements[i] = e.clone(),
        FpEd::SetName(ref n) => m.name = n.clone(),
        FpEd::Text(which, _, ref te) => {
            for e in &mut m.elements {
                if let fp::Element::FpText(ref mut t) = *e {
                    if t.name == which {
                        text_ed(t, te);
                        return "changed".into();
                    }
                }
            }
            return "none".into();
        }
        FpEd::Pad(i, ref pe) => {
            if let Some(p) = nth_pad(m, i) {
                match *pe {
                    PadEd::Net(ref n) => p.net = Some(n.clone()),
                    PadEd::Drill(ref d) => p.drill = Some(d.clone()),
                    PadEd::Layer(ref l) => p.layers.layers.push(l.clone()),
                    PadEd::Rename(ref a, ref b) => {
                        if let Some(ref mut n) = p.net {
                            if &n.name.0 == a {
                                n.name.0 = b.clone()
                            }
                        }
                    }
                }
            }
        }
        FpEd::New(ref e) => m.elements.push(match *e {
            // what the constructors leave out
            fp::Element::Pad(ref p) => fp::Element::Pad(fp::Pad {
                rect_delta: None,
                zone_connect: None,
                solder_paste_margin: None,
                solder_mask_margin: None,
                clearance: None,
                thermal_gap: None,
                ..p.clone()
            }),
            fp::Element::FpText(ref t) => fp::Element::FpText(fp::FpText { hide: false, ..t.clone() }),
            ref e => e.clone(),
        }),
        FpEd::Query(ref r) => return fp_lookup(m, r),
    }
    String::new()
}
fn fp_lib(m: &mut fp::Module, e: &FpEd) -> String {
    match *e {
        FpEd::SetRef(ref a, ref b) => m.set_reference(a, b),
        FpEd::Move(true, x, y) => m.adjust_at(x, y),
        FpEd::Move(false, x, y) => m.adjust(x, y),
        FpEd::RenameNet(ref a, ref b) => m.rename_net(a, b),
        FpEd::Flip => m.flip(),
        FpEd::Rotate(r) => m.rotate(r),
        FpEd::Append(ref e) => m.append(e.clone()),
        FpEd::Remove(i) => {
            m.elements.remove(i);
        }
        FpEd::Replace(i, ref e) => m.elements[i] = e.clone(),
        FpEd::SetName(ref n) => m.name = n.clone(),
        FpEd::Text(which, way, ref te) => {
            let t = match (way, which) {
                (0, "reference") => m.get_reference_text_mut(),
                (0, "value") => m.get_value_text_mut(),
                (0, "user") => m.get_reference2_text_mut(),
                _ => m.get_text_mut(which),
            };
            return match t {
                Some(t) => {
                    match *te {
                        TextEd::Value(ref v) => t.value = v.clone(),
                        TextEd::Hide(h) => t.hide = h,
                        TextEd::Layer(ref l) => t.set_layer(l),
                        TextEd::Effects(ref l) => t.set_effects(l),
                    }
                    "changed".into()
                }
                None => "none".into(),
            };
        }
        FpEd::Pad(i, ref pe) => {
            if let Some(p) = nth_pad(m, i) {
                match *pe {
                    PadEd::Net(ref n) => p.set_net(n.clone()),
                    PadEd::Drill(ref d) => p.set_drill(d.clone()),
                    PadEd::Layer(ref l) => p.layers.append(l.clone()),
                    PadEd::Rename(ref a, ref b) => p.rename_net(a, b),
                }
            }
        }
        FpEd::New(ref e) => m.append(made(e)),
        FpEd::Query(ref r) => return fp_query(m, r),
    }
    String::new()
}

fn pcb_names(l: &mut pcb::Layout, f: &dyn Fn(&mut String)) {
    for e in &mut l.elements {
        match *e {
            pcb::Element::Net(ref mut n) => f(&mut n.name.0),
            pcb::Element::NetClass(ref mut n) => n.nets.iter_mut().for_each(|n| f(&mut n.0)),
            pcb::Element::Zone(ref mut n) => f(&mut n.net_name.0),
            pcb::Element::Module(ref mut m) => {
                for e in &mut m.elements {
                    if let fp::Element::Pad(ref mut p) = *e {
                        if let Some(ref mut n) = p.net {
                            f(&mut n.name.0)
                        }
                    }
                }
            }
            _ => (),
        }
    }
}
pub fn move_element(e: &mut pcb::Element, x: f64, y: f64) {
    let at = |a: &mut fp::At| {
        a.x += x;
        a.y += y
    };
    let xy = |a: &mut fp::Xy| {
        a.x += x;
        a.y += y
    };
    let pts = |p: &mut fp::Pts| p.elements.iter_mut().for_each(|a| xy(a));
    use pcb::Element::*;
    match *e {
        Module(ref mut m) => {
            for e in &mut m.elements {
                if let fp::Element::At(ref mut a) = *e {
                    at(a)
                }
            }
        }
        GrText(ref mut t) => at(&mut t.at),
        GrLine(ref mut t) => {
            xy(&mut t.start);
            xy(&mut t.end)
        }
        GrArc(ref mut t) => {
            xy(&mut t.start);
            xy(&mut t.end)
        }
        GrCircle(ref mut t) => {
            xy(&mut t.center);
            xy(&mut t.end)
        }
        Dimension(ref mut d) => {
            at(&mut d.text.at);
            for p in [&mut d.feature1, &mut d.feature2, &mut d.crossbar, &mut d.arrow1a, &mut d.arrow1b, &mut d.arrow2a, &mut d.arrow2b] {
                pts(p)
            }
        }
        Segment(ref mut t) => {
            xy(&mut t.start);
            xy(&mut t.end)
        }
        Via(ref mut v) => at(&mut v.at),
        Zone(ref mut z) => {
            z.polygons.iter_mut().for_each(|p| pts(p));
            z.filled_polygons.iter_mut().for_each(|p| pts(p));
            if let Some(ref mut p) = z.fill_segments {
                pts(p)
            }
        }
        Net(_) | NetClass(_) | Other(_) => (),
    }
}
/// like `str::replace`, written out
pub fn replaced(s: &str, from: &str, to: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    while !rest.is_empty() {
        if rest.starts_with(from) {
            o.push_str(to);
            rest = &rest[from.len()..];
        } else {
            let c = rest.chars().next().unwrap();
            o.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    o
}
fn pcb_lookup(l: &pcb::Layout, r: &str) -> String {
    let nets: Vec<String> = l.elements.iter().filter_map(|e| if let pcb::Element::Net(ref n) = *e { Some(dbg(n)) } else { None }).collect();
    let classes: Vec<&pcb::NetClass> = l.elements.iter().filter_map(|e| if let pcb::Element::NetClass(ref n) = *e { Some(n) } else { None }).collect();
    let modules: Vec<String> = l.elements.iter().filter_map(|e| if let pcb::Element::Module(ref n) = *e { Some(dbg(n)) } else { None }).collect();
    let mut o = format!("{:?}|{:?}|{:?}|{:?}|", nets, classes.iter().map(|n| dbg(*n)).collect::<Vec<_>>(), modules, first_module(l, r).map(dbg));
    for c in &classes {
        o.push_str(&format!("{},", c.nets.iter().any(|n| n.0 == "GND")));
        for d in &classes {
            let (mut a, mut b) = ((*c).clone(), (*d).clone());
            a.nets.clear();
            b.nets.clear();
            o.push_str(&format!("{};", dbg(&a) == dbg(&b)));
        }
    }
    o.push_str(&format!("{:?}", l.setup.elements.iter().find(|e| e.name == "grid_origin").map(|e| &e.value1)));
    o
}
fn pcb_query(l: &pcb::Layout, r: &str) -> String {
    let mut o = format!(
        "{:?}|{:?}|{:?}|{:?}|",
        l.nets().iter().map(|n| dbg(*n)).collect::<Vec<_>>(),
        l.netclasses().iter().map(|n| dbg(*n)).collect::<Vec<_>>(),
        l.get_modules().iter().map(|n| dbg(*n)).collect::<Vec<_>>(),
        l.get_module(r).map(dbg)
    );
    for c in &l.netclasses() {
        o.push_str(&format!("{},", c.has_net("GND")));
        for d in &l.netclasses() {
            o.push_str(&format!("{};", c.equal_no_net(d)));
        }
    }
    o.push_str(&format!("{:?}", l.setup.get("grid_origin")));
    o
}
fn pcb_model(l: &mut pcb::Layout, e: &PcbEd) -> String {
    match *e {
        PcbEd::Move(x, y) => l.elements.iter_mut().for_each(|e| move_element(e, x, y)),
        PcbEd::AddNet(n, name) => l.elements.push(pcb::Element::Net(pcb::Net { num: n, name: pcb::NetName(name.to_string()) })),
        PcbEd::AddClass(name, ref nc) => {
            let mut nc = nc.clone();
            nc.name = name.to_string();
            nc.desc = "described".to_string();
            l.elements.push(pcb::Element::NetClass(nc))
        }
        PcbEd::Module(ref r, ref e) => {
            for x in &mut l.elements {
                if let pcb::Element::Module(ref mut m) = *x {
                    if fp_refs(m).iter().any(|x| x == r) {
                        fp_model(m, e);
                        return "ok".into();
                    }
                }
            }
            return "error".into();
        }
        PcbEd::Setup(n, ref v) => match l.setup.elements.iter_mut().find(|e| e.name == n) {
            Some(e) => e.value1 = v.clone(),
            None => l.setup.elements.push(pcb::SetupElement { name: n.into(), value1: v.clone(), value2: None }),
        },
        PcbEd::ChangeNet(ref a, ref b) => pcb_names(l, &|n| {
            if n == a {
                *n = b.clone()
            }
        }),
        PcbEd::ReplaceBlock(ref a, ref b) => pcb_names(l, &|n| *n = replaced(n, &format!("/{}/", a), &format!("/{}/", b))),
        PcbEd::Query(ref r) => return pcb_lookup(l, r),
        ref e => pcb_plain(l, e),
    }
    String::new()
}
/// edits of public fields are the same on both sides
fn pcb_plain(l: &mut pcb::Layout, e: &PcbEd) {
    match *e {
        PcbEd::Page(ref s) => l.page = s.clone(),
        PcbEd::Version(v) => l.version = v,
        PcbEd::Host(ref h) => l.host = h.clone(),
        PcbEd::General(ref g) => l.general = g.clone(),
        PcbEd::PushLayer(ref x) => l.layers.push(x.clone()),
        PcbEd::HideLayer(i, h) => l.layers[i].hide = h,
        PcbEd::Plot(ref a, ref b) => l.setup.pcbplotparams.push(pcb::SetupElement { name: a.clone(), value1: b.clone(), value2: None }),
        PcbEd::Push(ref e) => l.elements.push(e.clone()),
        PcbEd::Remove(i) => {
            l.elements.remove(i);
        }
        PcbEd::Swap(a, b) => l.elements.swap(a, b),
        _ => unreachable!(),
    }
}
fn pcb_lib(l: &mut pcb::Layout, e: &PcbEd) -> String {
    match *e {
        PcbEd::Move(x, y) => l.adjust(x, y),
        PcbEd::AddNet(n, name) => l.add_net(n, name),
        PcbEd::AddClass(name, ref n) => l.add_netclass(
            name,
            "described",
            n.clearance,
            n.trace_width,
            n.via_dia,
            n.via_drill,
            n.uvia_dia,
            n.uvia_drill,
            n.diff_pair_gap,
            n.diff_pair_width,
            n.nets.iter().map(|x| x.0.clone()).collect(),
        ),
        PcbEd::Module(ref r, ref e) => {
            return match l.modify_module(r, |m| {
                fp_lib(m, e);
            }) {
                Ok(()) => "ok".into(),
                Err(_) => "error".into(),
            }
        }
        PcbEd::Setup(n, ref v) => l.setup.update_element(n, v.clone()),
        PcbEd::ChangeNet(ref a, ref b) => l.change_net_name(a, b),
        PcbEd::ReplaceBlock(ref a, ref b) => {
            let r = l.update_net_names(|n| {
                n.replace_block(a, b);
                Ok(())
            });
            return if r.is_ok() { String::new() } else { "error".into() };
        }
        PcbEd::Query(ref r) => return pcb_query(l, r),
        ref e => pcb_plain(l, e),
    }
    String::new()
}

fn new_field(c: &sch::Component, n: &str, v: &str, x: f64, y: f64) -> sch::ComponentField {
    sch::ComponentField {
        i: c.fields.iter().map(|f| f.i).max().unwrap_or(0).max(0) + 1,
        value: v.to_string(),
        orientation: sch::Orientation::Horizontal,
        x,
        y,
        size: 60,
        visible: false,
        hjustify: sch::Justify::Center,
        vjustify: sch::Justify::Center,
        italic: false,
        bold: false,
        name: n.to_string(),
    }
}
fn set_field(c: &mut sch::Component, n: &str, v: &str) {
    for f in &mut c.fields {
        if f.name == n {
            f.value = v.to_string()
        }
        if f.i > 1 {
            f.visible = false
        }
    }
}
fn comp_model(c: &mut sch::Component, e: &CompEd) -> String {
    match *e {
        CompEd::Reference(ref r) => {
            c.reference = r.clone();
            c.fields.iter_mut().filter(|f| f.i == 0).for_each(|f| f.value = r.clone())
        }
        CompEd::Name(ref r) => {
            c.name = r.clone();
            c.fields.iter_mut().filter(|f| f.i == 1).for_each(|f| f.value = r.clone())
        }
        CompEd::Field(ref n, ref v) => set_field(c, n, v),
        CompEd::AddOrUpdate(ref n, ref v, x, y) => {
            let old = c.fields.iter().find(|f| &f.name == n).map(|f| f.value.clone());
            return match old {
                Some(ref o) if o == v => "same".into(),
                Some(o) => {
                    set_field(c, n, v);
                    format!("update {}", o)
                }
                None => {
                    let f = new_field(c, n, v, x, y);
                    c.fields.push(f);
                    "new".into()
                }
            };
        }
        CompEd::AddNew(ref n, ref v, x, y) => {
            let f = new_field(c, n, v, x, y);
            c.fields.push(f)
        }
        CompEd::Place(x, y) => {
            c.x = x;
            c.y = y
        }
        CompEd::Unit(ref u) => c.u = u.clone(),
    }
    String::new()
}
fn template(x: f64, y: f64) -> sch::ComponentField {
    let mut f = sch::ComponentField::new_from(9, "Template".into(), "template value".into(), x, y);
    // only the place is taken over
    f.visible = true;
    f.bold = true;
    f.italic = true;
    f.size = 99;
    f.orientation = sch::Orientation::Vertical;
    f.hjustify = sch::Justify::Left;
    f.vjustify = sch::Justify::Top;
    f
}
fn comp_lib(c: &mut sch::Component, e: &CompEd) -> String {
    match *e {
        CompEd::Reference(ref r) => c.update_reference(r.clone()),
        CompEd::Name(ref r) => c.update_name(r.clone()),
        CompEd::Field(ref n, ref v) => c.update_field(n, v),
        CompEd::AddOrUpdate(ref n, ref v, x, y) => {
            return match c.add_or_update_field(&template(x, y), n, v) {
                sch::FieldUpdate::New => "new".into(),
                sch::FieldUpdate::Update(o) => format!("update {}", o),
                sch::FieldUpdate::Same => "same".into(),
            }
        }
        CompEd::AddNew(ref n, ref v, x, y) => c.add_new_field(&template(x, y), n, v),
        CompEd::Place(x, y) => {
            c.x = x;
            c.y = y
        }
        CompEd::Unit(ref u) => c.u = u.clone(),
    }
    String::new()
}
fn sch_plain(s: &mut sch::Schematic, e: &SchEd) {
    match *e {
        SchEd::Describe(n, ref v) => {
            let d = &mut s.description;
            let f = match n {
                0 => &mut d.title,
                1 => &mut d.date,
                2 => &mut d.rev,
                3 => &mut d.comp,
                4 => &mut d.comment1,
                5 => &mut d.comment2,
                6 => &mut d.comment3,
                _ => &mut d.comment4,
            };
            *f = v.clone()
        }
        SchEd::Library(Some(ref l)) => s.libraries.push(l.clone()),
        SchEd::Library(None) => {
            s.libraries.pop();
        }
        SchEd::Push(ref e) => s.elements.push(gsch::clone_element(e)),
        SchEd::PushComponent(ref c) => s.elements.push(sch::Element::Component(c.clone())),
        SchEd::Remove(i) => {
            s.elements.remove(i);
        }
        SchEd::PushSheet(ref x) => s.sheets.push(x.clone()),
        SchEd::SheetName(i, ref n) => s.sheets[i].name = n.clone(),
        SchEd::RemoveSheet(i) => {
            s.sheets.remove(i);
        }
        _ => unreachable!(),
    }
}
fn comp_dbg(c: &sch::Component) -> String {
    gsch::dbg_component(c)
}
fn sch_lookup(s: &sch::Schematic, r: &str, f: &str) -> String {
    let cs = components(s);
    let all: Vec<String> = cs.iter().map(|c| comp_dbg(c)).collect();
    let mut o = format!("{:?}|{:?}|{:?}|", all, all, cs.iter().find(|c| c.reference == r).map(|c| comp_dbg(c)));
    for c in cs {
        let fld = c.fields.iter().find(|x| x.name == f);
        let mut h = BTreeMap::new();
        for f in &c.fields {
            h.insert(f.name.clone(), f.value.clone());
        }
        let num = c.fields.iter().map(|f| f.i).max().unwrap_or(0).max(0) + 1;
        o.push_str(&format!("{:?},{:?},{},{:?};", fld.map(|f| f.value.clone()), fld.map(dbg), num, h));
    }
    o
}
fn sch_query(s: &sch::Schematic, r: &str, f: &str) -> String {
    let mut v = vec![];
    s.collect_components(&mut v);
    let cs = s.components();
    let mut o = format!(
        "{:?}|{:?}|{:?}|",
        v.iter().map(comp_dbg).collect::<Vec<_>>(),
        cs.iter().map(comp_dbg).collect::<Vec<_>>(),
        s.component_by_reference(r).ok().map(|c| comp_dbg(&c))
    );
    for c in cs {
        let h: BTreeMap<String, String> = c.fields_hash().into_iter().collect();
        o.push_str(&format!("{:?},{:?},{},{:?};", c.get_field_value(f), c.get_field(f).as_ref().map(dbg), c.get_available_field_num(), h));
    }
    o
}
fn sch_model(m: &mut gsch::Sch, e: &SchEd) -> String {
    match *e {
        SchEd::Component(ref r, ref e) => {
            for x in &mut m.s.elements {
                if let sch::Element::Component(ref mut c) = *x {
                    if &c.reference == r {
                        return comp_model(c, e);
                    }
                }
            }
            return String::new();
        }
        SchEd::All(ref e) => {
            let mut o = String::new();
            for x in &mut m.s.elements {
                if let sch::Element::Component(ref mut c) = *x {
                    o.push_str(&comp_model(c, e));
                    o.push(';');
                }
            }
            return o;
        }
        SchEd::SheetCount => m.s.description.sheet_count += 1,
        SchEd::Remove(i) => {
            if let sch::Element::Component(_) = m.s.elements[i] {
                let n = m.s.elements[..i].iter().filter(|e| matches!(**e, sch::Element::Component(_))).count();
                m.rots.remove(n);
            }
            sch_plain(&mut m.s, e)
        }
        SchEd::PushComponent(_) => {
            m.rots.push([0; 4]);
            sch_plain(&mut m.s, e)
        }
        SchEd::Query(ref r, ref f) => return sch_lookup(&m.s, r, f),
        ref e => sch_plain(&mut m.s, e),
    }
    String::new()
}
fn sch_lib(s: &mut sch::Schematic, e: &SchEd) -> String {
    let out = std::cell::RefCell::new(String::new());
    match *e {
        SchEd::Component(ref r, ref e) => s.modify_component(r, |c| out.borrow_mut().push_str(&comp_lib(c, e))),
        SchEd::All(ref e) => s.modify_components(|c| {
            out.borrow_mut().push_str(&comp_lib(c, e));
            out.borrow_mut().push(';')
        }),
        SchEd::SheetCount => s.increment_sheet_count(),
        SchEd::Query(ref r, ref f) => return sch_query(s, r, f),
        ref e => sch_plain(s, e),
    }
    out.into_inner()
}

fn pin_mut(s: &mut lib::Symbol, j: usize) -> &mut lib::Pin {
    match s.draw[j] {
        lib::Draw::Pin(ref mut p) => p,
        _ => unreachable!(),
    }
}
fn lib_plain(l: &mut lib::SymbolLib, e: &LibEd) {
    match *e {
        LibEd::FieldValue(i, j, ref v) => l.symbols[i].fields[j].value = v.clone(),
        LibEd::FieldLook(i, j, v, it, b, x) => {
            let f = &mut l.symbols[i].fields[j];
            f.visible = v;
            f.italic = it;
            f.bold = b;
            f.x = x
        }
        LibEd::PinName(i, j, ref n) => pin_mut(&mut l.symbols[i], j).name = n.clone(),
        LibEd::PinPlace(i, j, x, y, v) => {
            let p = pin_mut(&mut l.symbols[i], j);
            p.x = x;
            p.y = y;
            p.pin_visible = v
        }
        LibEd::PinKind(i, j, ref t, ref s, ref o) => {
            let p = pin_mut(&mut l.symbols[i], j);
            p.pin_type = t.clone();
            p.pin_shape = s.clone();
            p.orientation = o.clone()
        }
        LibEd::Push(ref s) => l.symbols.push(s.clone()),
        LibEd::Remove(i) => {
            l.symbols.remove(i);
        }
        LibEd::Alias(i, ref a) => l.symbols[i].aliases.push(a.clone()),
        LibEd::Filter(i, ref a) => l.symbols[i].footprint_filters.push(a.clone()),
        LibEd::Draw(i, ref d) => l.symbols[i].draw.push(d.clone()),
        LibEd::Flags(i, a, b, n) => {
            let s = &mut l.symbols[i];
            s.draw_pinname = a;
            s.unit_locked = b;
            s.unit_count = n
        }
        _ => unreachable!(),
    }
}
fn lib_model(l: &mut lib::SymbolLib, e: &LibEd) -> String {
    match *e {
        LibEd::Name(i, ref n) => {
            let s = &mut l.symbols[i];
            s.name = if s.name.starts_with('~') { format!("~{}", n) } else { n.clone() };
            if s.fields.len() > 1 {
                s.fields[1].value = n.clone()
            }
        }
        LibEd::Find(ref n) => {
            let mut o = String::new();
            for s in &l.symbols {
                let ps: Vec<&lib::Pin> = s.draw.iter().filter_map(|d| if let lib::Draw::Pin(ref p) = *d { Some(p) } else { None }).collect();
                o.push_str(&format!(
                    "{:?},{},{},{};",
                    ps,
                    s.reference == "#PWR" && ps.len() == 1,
                    s.reference.starts_with('#') && ps.is_empty(),
                    ["L", "R", "C", "D"].contains(&s.name.as_str())
                ))
            }
            return format!("{:?} {}", l.symbols.iter().find(|s| &s.name == n).map(dbg), o);
        }
        ref e => lib_plain(l, e),
    }
    String::new()
}
fn lib_lib(l: &mut lib::SymbolLib, e: &LibEd) -> String {
    match *e {
        LibEd::Name(i, ref n) => l.symbols[i].set_name(n),
        LibEd::Find(ref n) => {
            let mut o = String::new();
            for s in &l.symbols {
                o.push_str(&format!("{:?},{},{},{};", s.pins(), s.is_power(), s.is_graphics(), s.is_basic()))
            }
            return format!("{:?} {}", l.find(|s| &s.name == n).map(dbg), o);
        }
        ref e => lib_plain(l, e),
    }
    String::new()
}
fn tab_both(t: &mut tab::FpLibTable, e: &TabEd) {
    match *e {
        TabEd::Push(ref l) => t.libs.push(l.clone()),
        TabEd::Remove(i) => {
            t.libs.remove(i);
        }
        TabEd::Change(i, n, ref v) => {
            let l = &mut t.libs[i];
            let f = match n {
                0 => &mut l.name,
                1 => &mut l.type_,
                2 => &mut l.uri,
                3 => &mut l.options,
                _ => &mut l.descr,
            };
            *f = v.clone()
        }
    }
}

pub fn on_model(d: &mut Doc, e: &Ed) -> String {
    match (d, e) {
        (&mut Doc::Fp(ref mut m), &Ed::Fp(ref e)) => fp_model(m, e),
        (&mut Doc::Pcb(ref mut m), &Ed::Pcb(ref e)) => pcb_model(m, e),
        (&mut Doc::Sch(ref mut m), &Ed::Sch(ref e)) => sch_model(m, e),
        (&mut Doc::Lib(ref mut m), &Ed::Lib(ref e)) => lib_model(m, e),
        (&mut Doc::Tab(ref mut m), &Ed::Tab(ref e)) => {
            tab_both(m, e);
            String::new()
        }
        _ => String::new(),
    }
}
/// to be called armed
pub fn on_loaded(d: &mut Loaded, e: &Ed) -> String {
    match (d, e) {
        (&mut Loaded::Fp(ref mut m), &Ed::Fp(ref e)) => fp_lib(m, e),
        (&mut Loaded::Pcb(ref mut m), &Ed::Pcb(ref e)) => pcb_lib(m, e),
        (&mut Loaded::Sch(ref mut m), &Ed::Sch(ref e)) => sch_lib(m, e),
        (&mut Loaded::Lib(ref mut m), &Ed::Lib(ref e)) => lib_lib(m, e),
        (&mut Loaded::Tab(ref mut m), &Ed::Tab(ref e)) => {
            tab_both(m, e);
            String::new()
        }
        _ => String::new(),
    }
}
pub fn name(e: &Ed) -> String {
    let s = format!("{:?}", e);
    crate::util::clip(&s, 120)
}

/// a document of this kind with something to edit in it
pub fn doc(kind: Kind, size: u32) -> Doc {
    let d = Doc::gen(kind, size);
    // parts that only matter together
    match d {
        Doc::Fp(mut m) if chance(1, 2) => {
            let mut t = gfp::fp_text();
            t.name = "reference".into();
            m.append(fp::Element::FpText(t));
            m.append(fp::Element::At(gfp::at()));
            for _ in 0..2 {
                m.append(fp::Element::Pad(gfp::pad()))
            }
            if let Some(x) = maybe(1, 2, gfp::line) {
                m.append(fp::Element::FpLine(x))
            }
            Doc::Fp(m)
        }
        d => d,
    }
}
