use super::footprint as fp;
use super::footprint::{t_at, t_effects, t_layer, t_layers, t_num, t_pts, t_str, t_xy};
use super::sexp::{l, none, opt, s, T};
use super::*;
use crate::choice::{below, chance, pick, small, weighted};
use kicad_parse_gen::footprint::XyType;
use kicad_parse_gen::layout::*;
use kicad_parse_gen::Sexp;

pub fn int() -> i64 {
    match weighted(&[6, 6, 6, 6, 1]) {
        0 => below(4) as i64,
        1 => below(100) as i64,
        2 => below(100_000) as i64,
        3 => -(below(50) as i64),
        _ => *pick(&[2147483647i64, 2147483648, -2147483649, 65536]),
    }
}
fn tstamp() -> Option<String> {
    maybe(1, 3, || if chance(1, 6) { word() } else { format!("{:X}", stamp()) })
}
fn setup_element() -> SetupElement {
    SetupElement {
        name: pick(&["last_trace_width", "trace_clearance", "user_trace_width", "grid_origin", "aux_axis_origin", "visible_elements", "pad_size", "zone_45_only", "hpglpendiameter", "outputdirectory", "x"]).to_string(),
        value1: text(),
        value2: maybe(1, 3, text),
    }
}
pub fn gr_text() -> GrText {
    GrText { value: text(), at: fp::at(), layer: fp::layer(), effects: fp::effects(), tstamp: tstamp() }
}
fn sexp(depth: u32, name: &str) -> Sexp {
    let mut v = vec![Sexp::String(name.to_string())];
    for _ in 0..few(4) {
        if depth > 0 && chance(1, 3) {
            v.push(sexp(depth - 1, pick(&["a", "xy", "net", "polygon_x", "thing"])))
        } else {
            v.push(Sexp::String(if chance(1, 2) { text() } else { format!("{}", num()) }))
        }
    }
    Sexp::List(v)
}
fn polygons() -> Vec<kicad_parse_gen::footprint::Pts> {
    let mut v = (0..many(2, 10)).map(|_| fp::pts()).collect();
    again(&mut v);
    v
}
pub fn zone() -> Zone {
    Zone {
        net: net_num(),
        net_name: NetName(net_name()),
        layer: fp::layer(),
        tstamp: format!("{:X}", stamp()),
        hatch: Hatch { style: pick(&["edge", "full", "none"]).to_string(), pitch: num() },
        priority: match below(12) {
            0..=3 => below(100) as u64,
            4 => *pick(&[127, 128, 255, 256, 1000, 65536, 2147483648]),
            _ => 0,
        },
        connect_pads: ConnectPads { connection: maybe(1, 3, || pick(&["no", "yes", "thru_hole_only"]).to_string()), clearance: num() },
        min_thickness: num(),
        keepout: maybe(1, 3, || Keepout { tracks: chance(1, 2), vias: chance(1, 2), copperpour: chance(1, 2) }),
        fill: Fill {
            filled: chance(1, 2),
            segment: chance(1, 4),
            arc_segments: int(),
            thermal_gap: num(),
            thermal_bridge_width: num(),
            smoothing: maybe(1, 4, || pick(&["chamfer", "fillet"]).to_string()),
            corner_radius: if chance(1, 3) { num() } else { 0.0 },
        },
        polygons: polygons(),
        filled_polygons: polygons(),
        fill_segments: maybe(1, 5, fp::pts),
        other: (0..few(2)).map(|_| sexp(2, pick(&["foo", "island_mode", "priority2"]))).collect(),
    }
}
pub fn net_class() -> NetClass {
    NetClass {
        name: text(),
        desc: text(),
        clearance: if chance(1, 4) { 0.1524 } else { num() },
        trace_width: if chance(1, 4) { 0.2032 } else { num() },
        via_dia: if chance(1, 4) { 0.675 } else { num() },
        via_drill: if chance(1, 4) { 0.25 } else { num() },
        uvia_dia: if chance(1, 4) { 0.508 } else { num() },
        uvia_drill: if chance(1, 4) { 0.127 } else { num() },
        diff_pair_gap: maybe(1, 3, num),
        diff_pair_width: maybe(1, 3, num),
        nets: (0..many(5, 40)).map(|_| NetName(net_name())).collect(),
    }
}

pub fn element(mod_elems: u32) -> Element {
    match weighted(&[6, 4, 3, 3, 3, 2, 2, 2, 4, 4, 4, 2]) {
        0 => Element::Module(fp::module(mod_elems)),
        1 => Element::Net(Net { num: net_num(), name: NetName(net_name()) }),
        2 => Element::NetClass(net_class()),
        3 => Element::GrText(gr_text()),
        4 => Element::GrLine(GrLine { start: fp::xy(XyType::Start), end: fp::xy(XyType::End), angle: num(), layer: fp::layer(), width: num(), tstamp: tstamp() }),
        5 => Element::GrArc(GrArc { start: fp::xy(XyType::Start), end: fp::xy(XyType::End), angle: num(), layer: fp::layer(), width: num(), tstamp: tstamp() }),
        6 => Element::GrCircle(GrCircle { center: fp::xy(XyType::Center), end: fp::xy(XyType::End), layer: fp::layer(), width: num(), tstamp: tstamp() }),
        7 => Element::Dimension(Dimension {
            name: text(),
            width: num(),
            layer: fp::layer(),
            tstamp: tstamp(),
            text: gr_text(),
            feature1: fp::pts(),
            feature2: fp::pts(),
            crossbar: fp::pts(),
            arrow1a: fp::pts(),
            arrow1b: fp::pts(),
            arrow2a: fp::pts(),
            arrow2b: fp::pts(),
        }),
        8 => Element::Segment(Segment {
            start: fp::xy(XyType::Start),
            end: fp::xy(XyType::End),
            width: num(),
            layer: fp::layer(),
            net: net_num(),
            tstamp: tstamp(),
            status: maybe(1, 5, word),
        }),
        9 => Element::Via(Via {
            blind: chance(1, 5),
            micro: chance(1, 5),
            at: fp::at(),
            size: num(),
            drill: if chance(1, 2) { num() } else { 0.0 },
            layers: {
                let mut x = kicad_parse_gen::footprint::Layers::default();
                for _ in 0..2 {
                    x.append(fp::layer())
                }
                x
            },
            net: net_num(),
        }),
        10 => Element::Zone(zone()),
        _ => Element::Other(sexp(3, pick(&["target", "gr_poly", "gr_curve", "no_such_thing", "x"]))),
    }
}
pub fn layout(max: u32, mod_elems: u32) -> Layout {
    let mut x = Layout::default();
    if chance(1, 2) {
        x.version = below(20_000_000) as i64;
    }
    if chance(1, 2) {
        x.host = Host { tool: text(), build: text() };
    }
    if chance(1, 2) {
        x.general = General {
            links: int(),
            no_connects: int(),
            area: Area { x1: num(), y1: num(), x2: num(), y2: num() },
            thickness: num(),
            drawings: int(),
            tracks: int(),
            zones: int(),
            modules: int(),
            nets: int(),
        };
    }
    if chance(1, 3) {
        x.page = text();
    }
    for _ in 0..many(5, 40) {
        x.layers.push(Layer {
            num: below(50) as i64,
            layer: fp::layer(),
            layer_type: match below(5) {
                0 => LayerType::Signal,
                1 => LayerType::Power,
                2 => LayerType::Mixed,
                3 => LayerType::Jumper,
                _ => LayerType::User,
            },
            hide: chance(1, 3),
        })
    }
    again(&mut x.layers);
    for _ in 0..many(5, 30) {
        x.setup.elements.push(setup_element())
    }
    again(&mut x.setup.elements);
    for _ in 0..many(5, 30) {
        x.setup.pcbplotparams.push(setup_element())
    }
    again(&mut x.setup.pcbplotparams);
    for _ in 0..few(max) {
        x.elements.push(element(mod_elems))
    }
    again(&mut x.elements);
    x
}

// ---- what a file with this content says

fn t_int(n: &str, i: i64) -> T {
    l(n, vec![T::I(i)])
}
fn t_tstamp(x: &Option<String>) -> T {
    x.as_ref().map(|x| t_str("tstamp", x)).unwrap_or(none())
}
fn t_gr_text(g: &GrText) -> T {
    l("gr_text", vec![s(&g.value), t_at(&g.at), t_layer(&g.layer), t_effects(&g.effects), t_tstamp(&g.tstamp)])
}
fn t_sexp(x: &Sexp) -> T {
    match *x {
        Sexp::String(ref x) => s(x),
        Sexp::List(ref v) => T::L(v.iter().map(t_sexp).collect()),
        Sexp::Empty => none(),
    }
}
fn t_width(w: f64) -> T {
    opt(w == 0.0, t_num("width", w))
}
fn in_pts(n: &str, p: &kicad_parse_gen::footprint::Pts) -> T {
    l(n, vec![t_pts(p)])
}
fn allowed(n: &str, b: bool) -> T {
    t_str(n, if b { "allowed" } else { "not_allowed" })
}
fn t_zone(z: &Zone) -> T {
    let mut v = vec![
        t_int("net", z.net),
        t_str("net_name", &z.net_name.0),
        t_layer(&z.layer),
        t_str("tstamp", &z.tstamp),
        l("hatch", vec![s(&z.hatch.style), T::N(z.hatch.pitch)]),
    ];
    if z.priority > 0 {
        v.push(t_int("priority", z.priority as i64))
    }
    let mut c = vec![];
    if let Some(ref x) = z.connect_pads.connection {
        c.push(s(x))
    }
    c.push(t_num("clearance", z.connect_pads.clearance));
    v.push(l("connect_pads", c));
    v.push(t_num("min_thickness", z.min_thickness));
    if let Some(ref k) = z.keepout {
        v.push(l("keepout", vec![allowed("tracks", k.tracks), allowed("vias", k.vias), allowed("copperpour", k.copperpour)]))
    }
    let mut f = vec![];
    if z.fill.filled {
        f.push(s("yes"))
    }
    if z.fill.segment {
        f.push(t_str("mode", "segment"))
    }
    f.push(t_int("arc_segments", z.fill.arc_segments));
    f.push(t_num("thermal_gap", z.fill.thermal_gap));
    f.push(t_num("thermal_bridge_width", z.fill.thermal_bridge_width));
    if let Some(ref x) = z.fill.smoothing {
        f.push(t_str("smoothing", x))
    }
    if z.fill.corner_radius != 0.0 {
        f.push(t_num("radius", z.fill.corner_radius))
    }
    v.push(l("fill", f));
    for p in &z.polygons {
        v.push(in_pts("polygon", p))
    }
    for p in &z.filled_polygons {
        v.push(in_pts("filled_polygon", p))
    }
    if let Some(ref p) = z.fill_segments {
        v.push(in_pts("fill_segments", p))
    }
    v.extend(z.other.iter().map(t_sexp));
    l("zone", v)
}
pub fn t_element(e: &Element) -> T {
    match *e {
        Element::Module(ref m) => fp::t_module(m),
        Element::Net(ref n) => l("net", vec![T::I(n.num), s(&n.name.0)]),
        Element::NetClass(ref n) => {
            let d = |name: &str, f: f64, def: f64| opt(f == def, t_num(name, f));
            let mut v = vec![
                s(&n.name),
                s(&n.desc),
                d("clearance", n.clearance, 0.1524),
                d("trace_width", n.trace_width, 0.2032),
                d("via_dia", n.via_dia, 0.675),
                d("via_drill", n.via_drill, 0.25),
                d("uvia_dia", n.uvia_dia, 0.508),
                d("uvia_drill", n.uvia_drill, 0.127),
            ];
            if let Some(f) = n.diff_pair_gap {
                v.push(t_num("diff_pair_gap", f))
            }
            if let Some(f) = n.diff_pair_width {
                v.push(t_num("diff_pair_width", f))
            }
            for x in &n.nets {
                v.push(t_str("add_net", &x.0))
            }
            l("net_class", v)
        }
        Element::GrText(ref g) => t_gr_text(g),
        Element::GrLine(ref g) => l("gr_line", vec![t_xy(&g.start), t_xy(&g.end), opt(g.angle == 0.0, t_num("angle", g.angle)), t_layer(&g.layer), t_width(g.width), t_tstamp(&g.tstamp)]),
        Element::GrArc(ref g) => l("gr_arc", vec![t_xy(&g.start), t_xy(&g.end), t_num("angle", g.angle), t_layer(&g.layer), t_width(g.width), t_tstamp(&g.tstamp)]),
        Element::GrCircle(ref g) => l("gr_circle", vec![t_xy(&g.center), t_xy(&g.end), t_layer(&g.layer), t_width(g.width), t_tstamp(&g.tstamp)]),
        Element::Dimension(ref d) => l(
            "dimension",
            vec![
                s(&d.name),
                t_num("width", d.width),
                t_layer(&d.layer),
                t_tstamp(&d.tstamp),
                t_gr_text(&d.text),
                in_pts("feature1", &d.feature1),
                in_pts("feature2", &d.feature2),
                in_pts("crossbar", &d.crossbar),
                in_pts("arrow1a", &d.arrow1a),
                in_pts("arrow1b", &d.arrow1b),
                in_pts("arrow2a", &d.arrow2a),
                in_pts("arrow2b", &d.arrow2b),
            ],
        ),
        Element::Segment(ref g) => l(
            "segment",
            vec![
                t_xy(&g.start),
                t_xy(&g.end),
                t_num("width", g.width),
                t_layer(&g.layer),
                t_int("net", g.net),
                t_tstamp(&g.tstamp),
                g.status.as_ref().map(|x| t_str("status", x)).unwrap_or(none()),
            ],
        ),
        Element::Via(ref g) => {
            let mut v = vec![];
            if g.blind {
                v.push(s("blind"))
            }
            if g.micro {
                v.push(s("micro"))
            }
            v.push(t_at(&g.at));
            v.push(t_num("size", g.size));
            if g.drill != 0.0 {
                v.push(t_num("drill", g.drill))
            }
            v.push(t_layers(&g.layers));
            v.push(opt(g.net == 0, t_int("net", g.net)));
            l("via", v)
        }
        Element::Zone(ref z) => t_zone(z),
        Element::Other(ref x) => t_sexp(x),
    }
}
fn t_setup(x: &SetupElement) -> T {
    l(&x.name, vec![s(&x.value1), x.value2.as_ref().map(|y| s(y)).unwrap_or(none())])
}
pub fn t_layout(x: &Layout) -> T {
    let d = Layout::default();
    let g = &x.general;
    let mut v = vec![
        opt(x.version == 4, t_int("version", x.version)),
        opt(dbg(&x.host) == dbg(&d.host), l("host", vec![s(&x.host.tool), s(&x.host.build)])),
        opt(
            dbg(g) == dbg(&d.general),
            l(
                "general",
                vec![
                    t_int("links", g.links),
                    t_int("no_connects", g.no_connects),
                    l("area", vec![T::N(g.area.x1), T::N(g.area.y1), T::N(g.area.x2), T::N(g.area.y2)]),
                    t_num("thickness", g.thickness),
                    t_int("drawings", g.drawings),
                    t_int("tracks", g.tracks),
                    t_int("zones", g.zones),
                    t_int("modules", g.modules),
                    t_int("nets", g.nets),
                ],
            ),
        ),
        opt(x.page == "A4", t_str("page", &x.page)),
        opt(
            x.layers.is_empty(),
            l(
                "layers",
                x.layers
                    .iter()
                    .map(|y| {
                        let mut w = vec![
                            T::I(y.num),
                            T::S(fp::layer_name(&y.layer)),
                            s(match y.layer_type {
                                LayerType::Signal => "signal",
                                LayerType::Power => "power",
                                LayerType::Mixed => "mixed",
                                LayerType::Jumper => "jumper",
                                LayerType::User => "user",
                            }),
                        ];
                        if y.hide {
                            w.push(s("hide"))
                        }
                        T::L(w)
                    })
                    .collect(),
            ),
        ),
    ];
    let mut su: Vec<T> = x.setup.elements.iter().map(t_setup).collect();
    su.push(opt(x.setup.pcbplotparams.is_empty(), l("pcbplotparams", x.setup.pcbplotparams.iter().map(t_setup).collect())));
    v.push(opt(x.setup.elements.is_empty() && x.setup.pcbplotparams.is_empty(), l("setup", su)));
    v.extend(x.elements.iter().map(t_element));
    l("kicad_pcb", v)
}
