use super::sexp::{l, none, opt, s, T};
use super::*;
use crate::choice::{below, chance, pick, small, weighted};
use kicad_parse_gen::footprint::*;

pub fn xy(t: XyType) -> Xy {
    Xy::new(num(), num(), t)
}
pub fn at() -> At {
    At::new(num(), num(), if chance(1, 2) { angle() } else { 0.0 })
}
pub fn layer_side() -> LayerSide {
    match below(11) {
        0 => LayerSide::Front,
        1 => LayerSide::Back,
        2 => LayerSide::Both,
        3 => LayerSide::Dwgs,
        4 => LayerSide::Cmts,
        5 => LayerSide::Eco1,
        6 => LayerSide::Eco2,
        7 => LayerSide::Edge,
        8 => LayerSide::In1,
        9 => LayerSide::In2,
        _ => LayerSide::None,
    }
}
pub fn layer_type() -> LayerType {
    match below(11) {
        0 => LayerType::Cu,
        1 => LayerType::SilkS,
        2 => LayerType::Fab,
        3 => LayerType::CrtYd,
        4 => LayerType::Mask,
        5 => LayerType::Paste,
        6 => LayerType::User,
        7 => LayerType::Adhes,
        8 => LayerType::Cuts,
        9 => LayerType::Margin,
        _ => LayerType::Other(pick(&["Top", "Inner", "GNDPlane", "L 3", "Signal_1", "Schirm-ß", "v1.2.GND", "a..b", "F.Cu.", "..", "B.Cu.x"]).to_string()),
    }
}
pub fn layer() -> Layer {
    let side = layer_side();
    let t = layer_type();
    // a name with several dots has no side
    match t {
        LayerType::Other(ref n) if n.contains('.') => Layer { side: LayerSide::None, t },
        _ => Layer { side, t },
    }
}
pub fn effects() -> Effects {
    let mut e = Effects::default();
    if chance(3, 4) {
        e.font.size.x = pos();
        e.font.size.y = pos();
        match below(30) {
            0 => e.font.size.x = 0.0,
            1 => e.font.size.y = 0.0,
            _ => (),
        }
    }
    e.font.thickness = nonneg();
    e.font.italic = chance(1, 4);
    e.justify = maybe(1, 3, || match below(3) {
        0 => Justify::Mirror,
        1 => Justify::Left,
        _ => Justify::Right,
    });
    e
}
pub fn fp_text() -> FpText {
    let name = match below(4) {
        0 => "reference".to_string(),
        1 => "value".into(),
        2 => "user".into(),
        _ => text(),
    };
    let value = match below(3) {
        0 => pick(&["R1", "R2", "REF**", "%R", "U1"]).to_string(),
        _ => text(),
    };
    let mut t = FpText::new(name, value);
    t.at = at();
    t.layer = layer();
    t.effects = effects();
    t.hide = chance(1, 4);
    t
}
pub fn pts() -> Pts {
    let mut p = Pts::default();
    for _ in 0..many(8, 60) {
        p.elements.push(xy(XyType::Xy))
    }
    again(&mut p.elements);
    p
}
pub fn net() -> Net {
    Net { num: net_num(), name: NetName(net_name()) }
}
pub fn drill() -> Drill {
    let width = pos();
    let height = match below(8) {
        0..=3 => width,
        4 => width + *pick(&[0.0001, 0.001, 0.00001]),
        _ => pos(),
    };
    let (ox, oy) = if chance(1, 3) { (num(), num()) } else { (0.0, 0.0) };
    // a drill that only has an offset
    if chance(1, 6) {
        return Drill { shape: None, width: 0.0, height: 0.0, offset_x: if chance(1, 4) && oy != 0.0 { 0.0 } else { num() + 0.25 }, offset_y: oy };
    }
    Drill { shape: maybe(1, 3, || "oval".to_string()), width, height, offset_x: ox, offset_y: oy }
}
pub fn pad() -> Pad {
    let t = match below(3) {
        0 => PadType::Smd,
        1 => PadType::Pth,
        _ => PadType::NpPth,
    };
    let sh = match below(4) {
        0 => PadShape::Rect,
        1 => PadShape::Circle,
        2 => PadShape::Oval,
        _ => PadShape::Trapezoid,
    };
    let mut p = Pad::new(if chance(1, 4) { text() } else { below(20).to_string() }, t, sh);
    p.size = xy(XyType::Size);
    p.at = at();
    p.rect_delta = maybe(1, 5, || xy(XyType::RectDelta));
    p.drill = maybe(1, 3, drill);
    for _ in 0..many(5, 20) {
        p.layers.append(layer())
    }
    again(&mut p.layers.layers);
    p.net = maybe(1, 2, net);
    p.zone_connect = maybe(1, 6, || *pick(&[0i64, 1, 2, 3, -1, 10]));
    p.solder_paste_margin = maybe(1, 6, num);
    p.solder_mask_margin = maybe(1, 6, num);
    p.clearance = maybe(1, 6, num);
    p.thermal_gap = maybe(1, 6, num);
    p
}
pub fn line() -> FpLine {
    FpLine { start: xy(XyType::Start), end: xy(XyType::End), layer: layer(), width: nonneg() }
}
pub fn xyz() -> Xyz {
    Xyz::new(num(), num(), num())
}
pub fn element() -> Element {
    match weighted(&[6, 6, 4, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]) {
        0 => Element::Pad(pad()),
        1 => Element::FpText(fp_text()),
        2 => Element::FpLine(line()),
        3 => Element::FpCircle(FpCircle { center: xy(XyType::Center), end: xy(XyType::End), layer: layer(), width: nonneg() }),
        4 => Element::FpArc(FpArc { start: xy(XyType::Start), end: xy(XyType::End), angle: num(), layer: layer(), width: nonneg() }),
        5 => Element::FpPoly(FpPoly { pts: pts(), layer: layer(), width: nonneg() }),
        6 => Element::At(at()),
        7 => Element::Layer(layer()),
        8 => Element::TEdit(stamp()),
        9 => Element::TStamp(stamp()),
        10 => Element::Descr(text()),
        11 => Element::Tags(text()),
        12 => Element::Attr(if chance(1, 2) { "smd".into() } else { text() }),
        13 => Element::Path(text()),
        14 => Element::Model(Model { name: text(), at: xyz(), scale: xyz(), rotate: xyz() }),
        15 => Element::Clearance(num()),
        16 => Element::SolderMaskMargin(num()),
        _ => Element::Locked,
    }
}
pub fn module(max: u32) -> Module {
    let mut m = Module::new(text());
    for _ in 0..few(max) {
        m.append(element())
    }
    again(&mut m.elements);
    m
}

// ---- what a file with this content says

pub fn layer_name(x: &Layer) -> String {
    let side = match x.side {
        LayerSide::Front => "F.",
        LayerSide::Back => "B.",
        LayerSide::Dwgs => "Dwgs.",
        LayerSide::Cmts => "Cmts.",
        LayerSide::Eco1 => "Eco1.",
        LayerSide::Eco2 => "Eco2.",
        LayerSide::Edge => "Edge.",
        LayerSide::In1 => "In1.",
        LayerSide::In2 => "In2.",
        LayerSide::Both => "*.",
        LayerSide::None => "",
    };
    let t = match x.t {
        LayerType::Cu => "Cu",
        LayerType::Paste => "Paste",
        LayerType::Mask => "Mask",
        LayerType::SilkS => "SilkS",
        LayerType::User => "User",
        LayerType::Adhes => "Adhes",
        LayerType::Cuts => "Cuts",
        LayerType::CrtYd => "CrtYd",
        LayerType::Fab => "Fab",
        LayerType::Margin => "Margin",
        LayerType::Other(ref s) => s,
    };
    format!("{}{}", side, t)
}
fn is_default_layer(x: &Layer) -> bool {
    x.side == LayerSide::Front && x.t == LayerType::Cu
}
pub fn t_layer(x: &Layer) -> T {
    l("layer", vec![T::S(layer_name(x))])
}
pub fn t_layers(x: &Layers) -> T {
    l("layers", x.layers.iter().map(|y| T::S(layer_name(y))).collect())
}
pub fn t_at(a: &At) -> T {
    let mut v = vec![T::N(a.x), T::N(a.y)];
    if a.rot != 0.0 {
        v.push(T::N(a.rot))
    }
    l("at", v)
}
pub fn t_xy(x: &Xy) -> T {
    let n = match x.t {
        XyType::Xy => "xy",
        XyType::Start => "start",
        XyType::End => "end",
        XyType::Size => "size",
        XyType::Center => "center",
        XyType::RectDelta => "rect_delta",
    };
    l(n, vec![T::N(x.x), T::N(x.y)])
}
pub fn t_pts(p: &Pts) -> T {
    l("pts", p.elements.iter().map(t_xy).collect())
}
pub fn t_num(n: &str, f: f64) -> T {
    l(n, vec![T::N(f)])
}
pub fn t_str(n: &str, f: &str) -> T {
    l(n, vec![s(f)])
}
pub fn t_effects(e: &Effects) -> T {
    let mut f = vec![];
    if e.font.size.x > 0.0 || e.font.size.y > 0.0 {
        f.push(l("size", vec![T::N(e.font.size.x), T::N(e.font.size.y)]))
    }
    f.push(opt(e.font.thickness == 0.0, t_num("thickness", e.font.thickness)));
    if e.font.italic {
        f.push(s("italic"))
    }
    let mut v = vec![l("font", f)];
    if let Some(ref j) = e.justify {
        v.push(t_str(
            "justify",
            match *j {
                Justify::Mirror => "mirror",
                Justify::Left => "left",
                Justify::Right => "right",
            },
        ))
    }
    l("effects", v)
}
fn t_net(n: &Net) -> T {
    l("net", vec![T::I(n.num), s(&n.name.0)])
}
fn t_opt(n: &str, v: Option<f64>) -> T {
    v.map(|f| t_num(n, f)).unwrap_or(none())
}
fn t_drill(d: &Drill) -> T {
    let mut v = vec![];
    if let Some(ref x) = d.shape {
        v.push(s(x))
    }
    if d.width > 0.0 {
        v.push(T::N(d.width))
    }
    if d.height > 0.0 && (d.height - d.width).abs() > f64::EPSILON {
        v.push(T::N(d.height))
    }
    if d.offset_x != 0.0 || d.offset_y != 0.0 {
        v.push(l("offset", vec![T::N(d.offset_x), T::N(d.offset_y)]))
    }
    l("drill", v)
}
fn t_pad(p: &Pad) -> T {
    let mut v = vec![
        s(&p.name),
        s(match p.t {
            PadType::Smd => "smd",
            PadType::Pth => "thru_hole",
            PadType::NpPth => "np_thru_hole",
        }),
        s(match p.shape {
            PadShape::Rect => "rect",
            PadShape::Circle => "circle",
            PadShape::Oval => "oval",
            PadShape::Trapezoid => "trapezoid",
        }),
        opt(p.at == At::default(), t_at(&p.at)),
        t_xy(&p.size),
    ];
    if let Some(ref d) = p.rect_delta {
        v.push(t_xy(d))
    }
    if let Some(ref d) = p.drill {
        v.push(t_drill(d))
    }
    v.push(t_layers(&p.layers));
    v.push(T::Any(vec![
        p.net.as_ref().map(t_net).unwrap_or(none()),
        p.zone_connect.map(|z| l("zone_connect", vec![T::I(z)])).unwrap_or(none()),
        t_opt("solder_paste_margin", p.solder_paste_margin),
        t_opt("solder_mask_margin", p.solder_mask_margin),
        t_opt("clearance", p.clearance),
        t_opt("thermal_gap", p.thermal_gap),
    ]));
    l("pad", v)
}
fn t_lw(v: &mut Vec<T>, la: &Layer, w: f64) {
    v.push(opt(is_default_layer(la), t_layer(la)));
    v.push(opt(w == 0.0, t_num("width", w)));
}
fn t_xyz(n: &str, x: &Xyz) -> T {
    l(n, vec![l("xyz", vec![T::N(x.x), T::N(x.y), T::N(x.z)])])
}
pub fn t_element(e: &Element) -> T {
    match *e {
        Element::SolderMaskMargin(f) => t_num("solder_mask_margin", f),
        Element::Layer(ref x) => t_layer(x),
        Element::Descr(ref x) => t_str("descr", x),
        Element::Tags(ref x) => t_str("tags", x),
        Element::Attr(ref x) => t_str("attr", x),
        Element::Path(ref x) => t_str("path", x),
        Element::FpText(ref t) => {
            let mut v = vec![s(&t.name), s(&t.value), opt(t.at == At::default(), t_at(&t.at)), opt(is_default_layer(&t.layer), t_layer(&t.layer))];
            if t.hide {
                v.push(s("hide"))
            }
            v.push(opt(dbg(&t.effects) == dbg(&Effects::default()), t_effects(&t.effects)));
            l("fp_text", v)
        }
        Element::Pad(ref p) => t_pad(p),
        Element::FpPoly(ref p) => {
            let mut v = vec![t_pts(&p.pts)];
            t_lw(&mut v, &p.layer, p.width);
            l("fp_poly", v)
        }
        Element::FpLine(ref p) => {
            let mut v = vec![t_xy(&p.start), t_xy(&p.end)];
            t_lw(&mut v, &p.layer, p.width);
            l("fp_line", v)
        }
        Element::FpCircle(ref p) => {
            let mut v = vec![t_xy(&p.center), t_xy(&p.end)];
            t_lw(&mut v, &p.layer, p.width);
            l("fp_circle", v)
        }
        Element::FpArc(ref p) => {
            let mut v = vec![t_xy(&p.start), t_xy(&p.end), opt(p.angle == 0.0, t_num("angle", p.angle))];
            t_lw(&mut v, &p.layer, p.width);
            l("fp_arc", v)
        }
        Element::TEdit(x) => l("tedit", vec![T::X(x)]),
        Element::TStamp(x) => l("tstamp", vec![T::X(x)]),
        Element::At(ref a) => t_at(a),
        Element::Model(ref m) => l("model", vec![s(&m.name), t_xyz("at", &m.at), t_xyz("scale", &m.scale), t_xyz("rotate", &m.rotate)]),
        Element::Clearance(f) => t_num("clearance", f),
        Element::Locked => s("locked"),
    }
}
pub fn t_module(m: &Module) -> T {
    let mut v = vec![s(&m.name)];
    v.extend(m.elements.iter().map(t_element));
    l("module", v)
}
