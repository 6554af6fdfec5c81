//! S19: fixing a footprint by the conventions can be retried and converges over crashes and restarts.
use super::doc::{load, size, Doc, Kind, Loaded};
use super::*;
use crate::choice::{below, chance, pick, small};
use crate::ensure;
use crate::gen::{self, footprint as gfp};
use crate::kernel::{k, Crash, Plan};
use crate::run::{life, op, viol, R};
use crate::util::{clip, diff};
use kicad_parse_gen::checkfix::{CheckFix, CheckFixData, Config};
use kicad_parse_gen::footprint::{Element, FpLine, FpText, LayerType, Module, PadType};

pub const PROP: Prop = Prop {
    id: "S19",
    run,
    quick: 40000,
    thorough: 2_000_000,
    directed: &[],
    how: "One evaluation is one simulated run: a drawn footprint and check settings. An undisturbed life checks, fixes and saves it to one file; it is judged against a model of what fixing may touch. The same is done on another file over lives that crash at drawn system calls (with drawn parts of writes stored or unsynced data lost) and saves that fail, each starting over from the stored file (from the original where the stored one is damaged). The final file must be that of the undisturbed life; after a restart the check may only report what fixing does not cover and fixing again must change nothing.",
    nontrivial: "a life crashed or a save failed, and something was reported.",
    assumptions: &["A missing reference or value text and a through-hole footprint marked for surface mount are reported but are not among what fixing repairs.", "Where the courtyard is drawn is not judged."],
};

const P: &str = "/sim/w/f.kicad_mod";
const Q: &str = "/sim/w/undisturbed.kicad_mod";

struct Set {
    klc: bool,
    size: f64,
    thick: f64,
}
impl Set {
    fn config(&self) -> Config {
        let mut c = Config::klc();
        if !self.klc {
            c.m.font_size = self.size;
            c.m.font_thickness = self.thick;
        }
        c
    }
    /// the same with the values of the convention written out
    fn wanted(&self) -> Config {
        let mut c = self.config();
        if self.klc {
            c.m.font_size = 1.0;
            c.m.font_thickness = 0.15;
        }
        c
    }
}

fn reports(v: &[CheckFixData]) -> Vec<(i64, i64, String, String)> {
    let mut o = vec![];
    for x in v {
        match *x {
            CheckFixData::Item(ref i) => o.push((i.section, i.rule, i.item.clone(), i.message.clone())),
            CheckFixData::More(ref m) => o.extend(reports(m)),
        }
    }
    o
}

fn first<'a>(m: &'a Module, name: &str) -> Option<usize> {
    m.elements.iter().position(|e| match *e {
        Element::FpText(ref t) => t.name == name,
        _ => false,
    })
}
fn pads(m: &Module) -> (usize, usize) {
    let n = |t: PadType| m.elements.iter().filter(|e| if let Element::Pad(ref p) = **e { p.t == t } else { false }).count();
    (n(PadType::Smd), n(PadType::Pth))
}
fn is_smd(m: &Module) -> bool {
    m.elements.iter().any(|e| if let Element::Attr(ref a) = *e { a == "smd" } else { false })
}
fn yard(m: &Module) -> usize {
    m.elements.iter().filter(|e| if let Element::FpLine(ref l) = **e { l.layer.t == LayerType::CrtYd } else { false }).count()
}

/// what may be reported and is not repaired
fn left(m: &Module) -> usize {
    let (smd, pth) = pads(m);
    first(m, "reference").is_none() as usize + first(m, "value").is_none() as usize + (pth > 0 && smd == 0 && is_smd(m)) as usize
}

/// is anything wrong with this text
fn text_ok(t: &FpText, value: &str, l: LayerType, c: &Config) -> bool {
    let near = |a: f64, b: f64| (a - b).abs() < 1e-9;
    t.value == value && t.layer.t == l && !t.hide && near(t.effects.font.size.x, c.m.font_size) && near(t.effects.font.size.y, c.m.font_size) && near(t.effects.font.thickness, c.m.font_thickness)
}

/// None: `b` is `a` with the reported items repaired
fn repaired(a: &Module, b: &Module, c: &Config) -> Option<String> {
    if a.name != b.name {
        return Some(format!("the name became {:?}", b.name));
    }
    let mut rest: Vec<&Element> = b.elements.iter().collect();
    let n = a.elements.len();
    if rest.len() < n {
        return Some(format!("{} elements became {}", n, rest.len()));
    }
    let added = rest.split_off(n);
    let (r, v, u) = (first(a, "reference"), first(a, "value"), first(a, "user"));
    for (i, (x, y)) in a.elements.iter().zip(rest).enumerate() {
        let mut want = x.clone();
        if let Element::FpText(ref mut t) = want {
            let to = if Some(i) == r {
                Some(("REF**", LayerType::SilkS))
            } else if Some(i) == v {
                Some((a.name.as_str(), LayerType::Fab))
            } else if Some(i) == u {
                Some(("%R", LayerType::Fab))
            } else {
                None
            };
            if let Some((s, l)) = to {
                if !text_ok(t, s, l.clone(), c) {
                    t.value = s.to_string();
                    t.layer.t = l;
                    t.hide = false;
                    t.effects.font.size.x = c.m.font_size;
                    t.effects.font.size.y = c.m.font_size;
                    t.effects.font.thickness = c.m.font_thickness;
                }
            }
        }
        let (p, q) = (gen::dbg(&want), gen::dbg(y));
        if p != q {
            return Some(format!("element {}: {}", i, diff(&p, &q)));
        }
    }
    // what was added
    let (smd, pth) = pads(a);
    let mut text = u.is_none() as i32;
    let mut attr = (smd > 0 && pth == 0 && !is_smd(a)) as i32;
    let mut lines = if yard(a) < 4 { 4 } else { 0 };
    for e in added {
        match *e {
            Element::FpText(ref t) if t.name == "user" && text_ok(t, "%R", LayerType::Fab, c) => text -= 1,
            Element::Attr(ref s) if s == "smd" => attr -= 1,
            Element::FpLine(FpLine { ref layer, .. }) if layer.t == LayerType::CrtYd => lines -= 1,
            ref e => return Some(format!("added {:?}", e)),
        }
    }
    if text != 0 || attr != 0 || lines > 0 || (lines < 0 && yard(a) >= 4) {
        return Some(format!("added too few or too many elements: off by {} texts, {} attributes, {} courtyard lines", text, attr, lines));
    }
    None
}

fn get(path: &str) -> R<Option<Module>> {
    match op("load", || load(Kind::Fp, path, 0))? {
        Ok(Loaded::Fp(m)) => Ok(Some(m)),
        Ok(x) => viol("loaded", format!("a footprint was loaded as {}", x.what())),
        Err(_) => Ok(None),
    }
}

/// judges one check and fix
fn fix(m: &mut Module, set: &Set, full: bool) -> R<usize> {
    let c = &set.config();
    let before = m.clone();
    let rep = reports(&op("check", || m.check(c))?);
    ensure!(gen::dbg(&before) == gen::dbg(m), "check", "checking changed the footprint");
    op("fix", || m.fix(c))?;
    if let Some(e) = repaired(&before, m, &set.wanted()) {
        return viol("fixed", format!("fixing did more or less than repair what was reported: {}", clip(&e, 500)));
    }
    if full {
        reported(&before, m, c)?
    }
    let n = left(&before);
    ensure!(rep.len() >= n, "unreported", "{} reports, {} unrepairable problems", rep.len(), n);
    if rep.len() == n && gen::dbg(&before) != gen::dbg(m) {
        // a hidden second reference is repaired but not reported
        let u = first(&before, "user");
        let hidden = u.map_or(false, |i| if let Element::FpText(ref t) = before.elements[i] { t.hide } else { false });
        ensure!(hidden, "unreported", "nothing was reported, but fixing changed the footprint: {}", clip(&diff(&gen::dbg(&before), &gen::dbg(m)), 400));
    }
    Ok(rep.len() - n)
}

/// everything that was repaired is something the check reports: undo each repair alone
fn reported(before: &Module, after: &Module, c: &Config) -> R {
    let base = left(after);
    let ask = |m: &Module, what: &str| -> R {
        let n = op("check", || m.check(c))?;
        ensure!(reports(&n).len() > base, "unreported", "fixing repaired {}, which the check does not report", what);
        Ok(())
    };
    let user = first(before, "user");
    for (i, (x, y)) in before.elements.iter().zip(&after.elements).enumerate() {
        if let (&Element::FpText(ref x), &Element::FpText(ref y)) = (x, y) {
            let undo: [(&str, bool, fn(&mut FpText, &FpText)); 6] = [
                ("value", x.value != y.value, |t, x| t.value = x.value.clone()),
                ("layer", x.layer.t != y.layer.t, |t, x| t.layer.t = x.layer.t.clone()),
                // a hidden second reference is repaired but not reported
                ("hiding", x.hide != y.hide && Some(i) != user, |t, x| t.hide = x.hide),
                ("width", x.effects.font.size.x != y.effects.font.size.x, |t, x| t.effects.font.size.x = x.effects.font.size.x),
                ("height", x.effects.font.size.y != y.effects.font.size.y, |t, x| t.effects.font.size.y = x.effects.font.size.y),
                ("thickness", x.effects.font.thickness != y.effects.font.thickness, |t, x| t.effects.font.thickness = x.effects.font.thickness),
            ];
            for (what, differs, f) in &undo {
                if *differs {
                    let mut m = after.clone();
                    if let Element::FpText(ref mut t) = m.elements[i] {
                        f(t, x)
                    }
                    ask(&m, &format!("the {} of the text {:?} {:?}", what, x.name, x.value))?
                }
            }
        }
    }
    let n = before.elements.len();
    let without = |f: fn(&Element) -> bool| -> Module {
        let mut m = after.clone();
        let mut i = 0;
        m.elements.retain(|e| {
            i += 1;
            i <= n || !f(e)
        });
        m
    };
    for (what, f) in &[
        ("a missing text", (|e| if let Element::FpText(_) = *e { true } else { false }) as fn(&Element) -> bool),
        ("a missing attribute", |e| if let Element::Attr(_) = *e { true } else { false }),
        ("a missing courtyard", |e| if let Element::FpLine(_) = *e { true } else { false }),
    ] {
        let m = without(*f);
        if m.elements.len() < after.elements.len() {
            ask(&m, what)?
        }
    }
    Ok(())
}

/// after a restart nothing is left to do
fn settled(path: &str, c: &Config) -> R {
    let mut m = match get(path)? {
        Some(m) => m,
        None => return viol("unreadable", "the fixed file cannot be loaded".into()),
    };
    let rep = reports(&op("check", || m.check(c))?);
    let want = left(&m);
    ensure!(rep.len() == want, "reported", "after fixing, saving and loading, {} problems are reported, {} expected: {:?}", rep.len(), want, rep);
    let before = gen::dbg(&m);
    op("fix", || m.fix(c))?;
    ensure!(before == gen::dbg(&m), "again", "fixing again changed the footprint: {}", clip(&diff(&before, &gen::dbg(&m)), 500));
    Ok(())
}

fn footprint() -> Module {
    let mut m = gfp::module([4, 12, 40][size() as usize]);
    if chance(1, 4) {
        m.name = format!("BGA{}", below(100))
    }
    let add = |m: &mut Module, e: Element| {
        let n = m.elements.len();
        let i = below(n as u32 + 1) as usize;
        m.elements.insert(i, e)
    };
    for (n, good, l) in [("reference", "REF**", LayerType::SilkS), ("value", "", LayerType::Fab), ("user", "%R", LayerType::Fab)] {
        for _ in 0..below(3) {
            let mut t = gfp::fp_text();
            t.name = n.to_string();
            if chance(1, 2) {
                t.value = if good.is_empty() { m.name.clone() } else { good.to_string() }
            }
            if chance(1, 2) {
                t.layer.t = l.clone()
            }
            if chance(1, 2) {
                t.effects.font.size.x = 1.0;
                t.effects.font.size.y = *pick(&[1.0, 1.0, 0.5]);
                t.effects.font.thickness = *pick(&[0.15, 0.15, 0.1]);
            }
            add(&mut m, Element::FpText(t));
        }
    }
    for _ in 0..below(6) {
        let mut l = gfp::line();
        if chance(3, 4) {
            l.layer.t = LayerType::CrtYd
        }
        add(&mut m, Element::FpLine(l));
    }
    // all pads of one type
    if chance(1, 2) {
        let t = *pick(&[0, 1, 2]);
        for e in &mut m.elements {
            if let Element::Pad(ref mut p) = *e {
                p.t = [PadType::Smd, PadType::Pth, PadType::NpPth][t].clone()
            }
        }
    }
    if chance(1, 4) {
        m.elements.retain(|e| if let Element::Attr(_) = *e { false } else { true })
    }
    m
}

fn run() -> R {
    let m = footprint();
    let set = Set { klc: chance(1, 2), size: *pick(&[1.0, 0.8, 1.27, 0.001, 100.0]), thick: *pick(&[0.15, 0.1, 0.2, 0.01]) };
    let c = set.config();
    let text = Doc::Fp(m.clone()).render();
    k().put(P, text.as_bytes());
    k().put(Q, text.as_bytes());
    // undisturbed
    let mut found = false;
    if let Some(r) = life(Crash::Never, || {
        let mut x = match get(Q)? {
            Some(x) => x,
            None => return viol("unreadable", "the footprint cannot be loaded".into()),
        };
        let n = fix(&mut x, &set, true)?;
        let l = Loaded::Fp(x);
        match op("save", || l.save(Q))? {
            Ok(()) => (),
            Err(e) => return viol("spurious", format!("saving failed: {}", e)),
        }
        Ok(vec![(n > 0) as u8])
    }) {
        found = r[0] == 1
    }
    let good = k().get(Q).unwrap_or_default();
    life(Crash::Never, || settled(Q, &c).map(|_| vec![]));
    // disturbed
    let times = 1 + small(4);
    for n in 0..=times {
        let last = n == times;
        let crash = if last || chance(1, 4) {
            Crash::Never
        } else {
            Crash::At { calls: small(5), keep_permille: if chance(1, 2) { below(1001) } else { *pick(&[0, 1000, 999]) } }
        };
        let md = if last { Mode::Soft } else { mode() };
        let twice = chance(1, 3);
        let done = life(crash, || {
            let mut x = match get(P)? {
                Some(x) => x,
                // 1: a crash or failed save has damaged the file
                None => return Ok(vec![1]),
            };
            fix(&mut x, &set, false)?;
            let l = Loaded::Fp(x);
            for i in 0..1 + twice as u32 {
                plan(md);
                let mk = mark();
                let r = op("save", || l.save(P))?;
                let hard = mk.hard();
                k().plan = Plan::none();
                match r {
                    Ok(()) => return Ok(vec![2]),
                    Err(e) => {
                        ensure!(hard > 0, "spurious", "saving failed without a cause: {}", e);
                        if i == 0 {
                            k().nontrivial |= found
                        }
                    }
                }
            }
            Ok(vec![0])
        });
        match done {
            None => {
                k().nontrivial |= found;
                probe("crashed");
                if chance(1, 3) {
                    k().lose_unsynced()
                }
            }
            Some(v) => match v[0] {
                0 => {
                    probe("save_failed");
                    k().nontrivial |= found
                }
                1 => {
                    probe("damaged");
                    ensure!(n > 0, "unreadable", "the footprint cannot be loaded");
                    let t = k().get(P).unwrap_or_default();
                    ensure!(t != good && t != text.as_bytes(), "unreadable", "a complete file cannot be loaded");
                    k().put(P, text.as_bytes());
                    if last {
                        // once more, from the original
                        life(Crash::Never, || {
                            let mut x = match get(P)? {
                                Some(x) => x,
                                None => return viol("unreadable", "the footprint cannot be loaded".into()),
                            };
                            fix(&mut x, &set, false)?;
                            let l = Loaded::Fp(x);
                            match op("save", || l.save(P))? {
                                Ok(()) => Ok(vec![]),
                                Err(e) => viol("spurious", format!("saving failed: {}", e)),
                            }
                        });
                    }
                }
                _ => {
                    probe("saved");
                    let t = k().get(P).unwrap_or_default();
                    ensure!(t == good, "differs", "the file differs from that of an undisturbed run: {}", clip(&diff(&String::from_utf8_lossy(&good), &String::from_utf8_lossy(&t)), 500));
                    if chance(1, 3) {
                        k().lose_unsynced()
                    }
                }
            },
        }
    }
    let t = k().get(P).unwrap_or_default();
    if t == good {
        life(Crash::Never, || settled(P, &c).map(|_| vec![]));
    } else {
        // data that never reached the disk was lost after the last save
        probe("lost_at_the_end");
        ensure!(good.starts_with(&t), "differs", "the file differs from that of an undisturbed run: {}", clip(&diff(&String::from_utf8_lossy(&good), &String::from_utf8_lossy(&t)), 500));
    }
    Ok(())
}
