//! Documents of all kinds behind one interface: model, stored form, loading, saving, comparing.
use crate::choice::{below, chance, small};
use crate::gen::{self, footprint as gfp, layout as gpcb, lines, schematic as gsch, sexp, symbol_lib as glib, table as gtab};
use kicad_parse_gen as kpg;
use kicad_parse_gen::{KicadError, KicadFile};
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Fp,
    Pcb,
    Sch,
    Lib,
    Tab,
    Pro,
}
pub const KINDS: [Kind; 6] = [Kind::Fp, Kind::Pcb, Kind::Sch, Kind::Lib, Kind::Tab, Kind::Pro];

impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Fp => "module",
            Kind::Pcb => "layout",
            Kind::Sch => "schematic",
            Kind::Lib => "symbollib",
            Kind::Tab => "fp-lib-table",
            Kind::Pro => "project",
        }
    }
    pub fn ext(self) -> &'static str {
        match self {
            Kind::Fp => "kicad_mod",
            Kind::Pcb => "kicad_pcb",
            Kind::Sch => "sch",
            Kind::Lib => "lib",
            Kind::Tab => "fp-lib-table",
            Kind::Pro => "pro",
        }
    }
    pub fn expected(self) -> kpg::Expected {
        match self {
            Kind::Fp => kpg::Expected::Module,
            Kind::Pcb => kpg::Expected::Layout,
            Kind::Sch => kpg::Expected::Schematic,
            Kind::Lib => kpg::Expected::SymbolLib,
            Kind::Tab => kpg::Expected::FpLibTable,
            Kind::Pro => kpg::Expected::Project,
        }
    }
    /// how many ways to read a file of this kind there are
    pub fn entries(self) -> u32 {
        match self {
            Kind::Sch | Kind::Lib => 5,
            _ => 4,
        }
    }
}
pub fn kind() -> Kind {
    KINDS[below(6) as usize]
}

/// the model
pub enum Doc {
    Fp(kpg::footprint::Module),
    Pcb(kpg::layout::Layout),
    Sch(gsch::Sch),
    Lib(kpg::symbol_lib::SymbolLib),
    Tab(kpg::fp_lib_table::FpLibTable),
    Pro(String),
}

impl Clone for Doc {
    fn clone(&self) -> Doc {
        match *self {
            Doc::Fp(ref m) => Doc::Fp(m.clone()),
            Doc::Pcb(ref l) => Doc::Pcb(clone_layout(l)),
            Doc::Sch(ref s) => Doc::Sch(s.clone()),
            Doc::Lib(ref l) => Doc::Lib(glib::clone(l)),
            Doc::Tab(ref t) => Doc::Tab(t.clone()),
            Doc::Pro(ref s) => Doc::Pro(s.clone()),
        }
    }
}
pub fn clone_layout(l: &kpg::layout::Layout) -> kpg::layout::Layout {
    kpg::layout::Layout {
        version: l.version,
        host: l.host.clone(),
        general: l.general.clone(),
        page: l.page.clone(),
        setup: l.setup.clone(),
        layers: l.layers.clone(),
        elements: l.elements.clone(),
    }
}

impl Doc {
    /// `size`: 0 small .. 2 big
    pub fn gen(kind: Kind, size: u32) -> Doc {
        let f = [4, 12, 60][size as usize];
        crate::gen::grow(chance(1, 150));
        let d = match kind {
            Kind::Fp => Doc::Fp(gfp::module(f)),
            Kind::Pcb => Doc::Pcb(gpcb::layout(f, [2, 4, 8][size as usize])),
            Kind::Sch => Doc::Sch(gsch::schematic(f, &[])),
            Kind::Lib => Doc::Lib(glib::symbol_lib([2, 4, 16][size as usize])),
            Kind::Tab => Doc::Tab(gtab::table(f)),
            Kind::Pro => Doc::Pro(gtab::project()),
        };
        crate::gen::grow(false);
        d
    }
    pub fn kind(&self) -> Kind {
        match *self {
            Doc::Fp(_) => Kind::Fp,
            Doc::Pcb(_) => Kind::Pcb,
            Doc::Sch(_) => Kind::Sch,
            Doc::Lib(_) => Kind::Lib,
            Doc::Tab(_) => Kind::Tab,
            Doc::Pro(_) => Kind::Pro,
        }
    }
    /// a stored file with this content
    pub fn render(&self) -> String {
        match *self {
            Doc::Fp(ref m) => sexp::render(&gfp::t_module(m), &sexp::Style::random()),
            Doc::Pcb(ref l) => sexp::render(&gpcb::t_layout(l), &sexp::Style::random()),
            Doc::Tab(ref t) => sexp::render(&gtab::t_table(t), &sexp::Style::random()),
            Doc::Sch(ref s) => gsch::render_file(s),
            Doc::Lib(ref l) => glib::render_file(l),
            Doc::Pro(ref s) => s.clone(),
        }
    }
    /// None: this text is what a save of the document writes
    pub fn check_text(&self, text: &str) -> Option<String> {
        match *self {
            Doc::Fp(ref m) => sexp::check_text(&gfp::t_module(m), text),
            Doc::Pcb(ref l) => sexp::check_text(&gpcb::t_layout(l), text),
            Doc::Tab(ref t) => sexp::check_text(&gtab::t_table(t), text),
            Doc::Sch(ref s) => lines::check_text(&gsch::lines(s), text),
            Doc::Lib(ref l) => lines::check_text(&glib::lines(l), text),
            Doc::Pro(ref s) => {
                if s == text {
                    None
                } else {
                    Some(crate::util::diff(s, text))
                }
            }
        }
    }
    pub fn dbg(&self) -> String {
        match *self {
            Doc::Fp(ref m) => gen::dbg(m),
            Doc::Pcb(ref l) => gen::dbg(l),
            Doc::Tab(ref t) => gen::dbg(t),
            Doc::Sch(ref s) => gsch::dbg(&s.s),
            Doc::Lib(ref l) => gen::dbg(l),
            Doc::Pro(ref s) => s.clone(),
        }
    }
    /// None: the loaded document is this one
    pub fn check_loaded(&self, x: &Loaded, path: Option<&str>) -> Option<String> {
        if x.kind() != Some(self.kind()) {
            return Some(format!("expected a {}, got {}", self.kind().name(), x.what()));
        }
        let (a, b) = (self.dbg(), x.dbg());
        if a != b {
            return Some(crate::util::diff(&a, &b));
        }
        // and the library finds them equal
        if let (&Doc::Fp(ref m), &Loaded::Fp(ref y)) = (self, x) {
            for (p, q) in m.elements.iter().zip(&y.elements) {
                if p != q {
                    return Some(format!("not equal to itself: {:?}", p));
                }
            }
        }
        if let (&Doc::Sch(ref m), &Loaded::Sch(ref s)) = (self, x) {
            if let Some(p) = path {
                if s.filename.as_ref().map(|x| x.as_path()) != Some(Path::new(p)) {
                    return Some(format!("file name {:?}, loaded from {}", s.filename, p));
                }
            }
            // the parts that do not show in the model
            return lines::check_text(&gsch::lines(m), &s.to_string());
        }
        None
    }
}

/// what the library gave
pub enum Loaded {
    Fp(kpg::footprint::Module),
    Pcb(kpg::layout::Layout),
    Sch(kpg::schematic::Schematic),
    Lib(kpg::symbol_lib::SymbolLib),
    Tab(kpg::fp_lib_table::FpLibTable),
    Pro(kpg::project::Project),
    Unknown(PathBuf),
}

impl Loaded {
    pub fn kind(&self) -> Option<Kind> {
        match *self {
            Loaded::Fp(_) => Some(Kind::Fp),
            Loaded::Pcb(_) => Some(Kind::Pcb),
            Loaded::Sch(_) => Some(Kind::Sch),
            Loaded::Lib(_) => Some(Kind::Lib),
            Loaded::Tab(_) => Some(Kind::Tab),
            Loaded::Pro(_) => Some(Kind::Pro),
            Loaded::Unknown(_) => None,
        }
    }
    pub fn what(&self) -> &'static str {
        self.kind().map(|k| k.name()).unwrap_or("unknown")
    }
    pub fn dbg(&self) -> String {
        match *self {
            Loaded::Fp(ref m) => gen::dbg(m),
            Loaded::Pcb(ref l) => gen::dbg(l),
            Loaded::Tab(ref t) => gen::dbg(t),
            Loaded::Sch(ref s) => gsch::dbg(s),
            Loaded::Lib(ref l) => gen::dbg(l),
            Loaded::Pro(ref s) => s.data.clone(),
            Loaded::Unknown(ref p) => gen::dbg(p),
        }
    }
    /// the library's own text form
    pub fn text(&self) -> Result<String, KicadError> {
        match *self {
            Loaded::Fp(ref m) => kpg::footprint::module_to_string(m, 0),
            Loaded::Pcb(ref l) => kpg::layout::layout_to_string(l, 0),
            Loaded::Tab(ref t) => kpg::fp_lib_table::to_string(t, 0),
            Loaded::Sch(ref s) => Ok(s.to_string()),
            Loaded::Lib(ref l) => Ok(l.to_string()),
            Loaded::Pro(ref s) => Ok(s.data.clone()),
            Loaded::Unknown(_) => Ok(String::new()),
        }
    }
    pub fn save(&self, path: &str) -> Result<(), KicadError> {
        let p = Path::new(path);
        match *self {
            Loaded::Fp(ref m) => kpg::write_module(m, p),
            Loaded::Pcb(ref l) => kpg::write_layout(l, p),
            _ => kpg::write_file(p, &self.text()?),
        }
    }
    pub fn of(k: KicadFile) -> Loaded {
        match k {
            KicadFile::Module(m) => Loaded::Fp(m),
            KicadFile::Layout(m) => Loaded::Pcb(m),
            KicadFile::Schematic(m) => Loaded::Sch(m),
            KicadFile::SymbolLib(m) => Loaded::Lib(m),
            KicadFile::FpLibTable(m) => Loaded::Tab(m),
            KicadFile::Project(m) => Loaded::Pro(m),
            KicadFile::Unknown(p) => Loaded::Unknown(p),
        }
    }
}

/// read a file as the given kind through one of the library's entry points
pub fn load(kind: Kind, path: &str, entry: u32) -> Result<Loaded, KicadError> {
    let p = Path::new(path);
    match entry {
        0 => Ok(match kind {
            Kind::Fp => Loaded::Fp(kpg::read_module(p)?),
            Kind::Pcb => Loaded::Pcb(kpg::read_layout(p)?),
            Kind::Sch => Loaded::Sch(kpg::read_schematic(p)?),
            Kind::Lib => Loaded::Lib(kpg::read_symbol_lib(p)?),
            Kind::Tab => Loaded::Tab(kpg::read_fp_lib_table(p)?),
            Kind::Pro => Loaded::Pro(kpg::read_project(p)?),
        }),
        1 => Ok(Loaded::of(kpg::read_kicad_file(p, kpg::Expected::Any)?)),
        2 => Ok(Loaded::of(kpg::read_kicad_file(p, kind.expected())?)),
        4 => Ok(match kind {
            Kind::Sch => Loaded::Sch(kpg::schematic::parse_file(p)?),
            _ => Loaded::Lib(kpg::symbol_lib::parse_file(&p.to_path_buf())?),
        }),
        _ => {
            let s = kpg::read_file(p)?;
            parse(kind, &s, Some(p))
        }
    }
}
pub fn parse(kind: Kind, s: &str, p: Option<&Path>) -> Result<Loaded, KicadError> {
    Ok(match kind {
        Kind::Fp => Loaded::Fp(kpg::footprint::parse(s)?),
        Kind::Pcb => Loaded::Pcb(kpg::layout::parse(s)?),
        Kind::Sch => Loaded::Sch(kpg::schematic::parse(p.map(|p| p.to_path_buf()), s)?),
        Kind::Lib => Loaded::Lib(kpg::symbol_lib::parse_str(s)?),
        Kind::Tab => Loaded::Tab(kpg::fp_lib_table::parse(s)?),
        Kind::Pro => Loaded::Pro(kpg::project::parse_str(s)?),
    })
}

/// size class of a document: mostly small
pub fn size() -> u32 {
    if chance(1, 12) {
        2
    } else {
        small(1)
    }
}
