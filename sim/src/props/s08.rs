//! S08: library locations expand with the environment as it is at the call.
use super::doc::{load, Doc, Kind, Loaded};
use super::*;
use crate::choice::{below, chance, pick, small, weighted};
use crate::ensure;
use crate::gen;
use crate::kernel::{k, Crash, Plan};
use crate::run::{life, op, viol, R};
use crate::util::clip;
use kicad_parse_gen::fp_lib_table::{FpLibTable, Lib};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;

pub const PROP: Prop = Prop {
    id: "S08",
    run,
    quick: 100_000,
    thorough: 600_000,
    directed: &[],
    how: "One evaluation is one simulated run: 1-3 program lives, each loading a library table and making up to 12 environment changes, expansions, edits, saves and reloads; every expansion is compared with a reference expansion of the parts the location was built from.",
    nontrivial: "at least one expansion of a location with a variable or tilde after a change of the environment.",
    assumptions: &["Not generated: '$$', a tilde directly followed by a variable, environments changed by another thread during a call, HOME unset."],
};

const VARS: &[&str] = &["KISYSMOD", "KIPRJMOD", "A", "AB", "X_1", "KIGITHUB", "Ünï", "kicad_libs", "a"];
const PATH: &str = "/sim/w/fp-lib-table";

#[derive(Clone, Debug)]
enum Part {
    Lit(String),
    Var(&'static str, bool),
    Tilde,
}

/// a variable's value: text, or bytes that are no text
#[derive(Clone, Debug, PartialEq)]
enum Val {
    Text(String),
    Bytes(Vec<u8>),
}

fn lit() -> String {
    let t = if chance(1, 4) { pick(&["$", "$/", "a$-b", "$ ", "$.x", "{A}", "A}", "$(A)", "%A%", "$\u{301}"]).to_string() } else { gen::text() };
    if t.contains("${") {
        return "lit".into();
    }
    t.replace("$$", "")
}

fn location() -> Vec<Part> {
    let mut v = vec![];
    if chance(1, 4) {
        v.push(Part::Tilde);
        if chance(3, 4) {
            v.push(Part::Lit(format!("/{}", lit())))
        } else {
            return v;
        }
    }
    for _ in 0..1 + small(3) {
        if chance(1, 2) {
            v.push(Part::Var(pick(VARS), chance(2, 3)))
        } else {
            v.push(Part::Lit(lit()))
        }
    }
    if chance(1, 12) {
        v.push(Part::Lit("${unclosed".into()))
    }
    repair(v)
}
/// the text means these parts and nothing else
fn repair(v: Vec<Part>) -> Vec<Part> {
    let mut o: Vec<Part> = vec![];
    for (i, p) in v.iter().enumerate() {
        if let Part::Lit(ref s) = *p {
            let mut s = s.clone();
            if text_of(&o).is_empty() && (s == "~" || s.starts_with("~/") || s.starts_with('~') && v.len() > i + 1) {
                s = format!("x{}", s)
            }
            // a dollar at the end of a text or before something that makes it a variable
            if s.ends_with('$') {
                s.push(if chance(1, 2) { '/' } else { '.' })
            }
            if let Some(&Part::Var(_, false)) = o.last() {
                if s.chars().next().map(|c| c.is_alphanumeric() || c == '_').unwrap_or(true) {
                    s = format!("/{}", s)
                }
            }
            o.push(Part::Lit(s))
        } else {
            // "$A$B" is fine, and so is "$A${B}"
            o.push(p.clone())
        }
    }
    o
}
fn text_of(v: &[Part]) -> String {
    let mut s = String::new();
    for p in v {
        match *p {
            Part::Lit(ref l) => s.push_str(l),
            Part::Var(n, true) => s.push_str(&format!("${{{}}}", n)),
            Part::Var(n, false) => s.push_str(&format!("${}", n)),
            Part::Tilde => s.push('~'),
        }
    }
    s
}
type Env = BTreeMap<&'static str, Val>;
fn expand(v: &[Part], env: &Env, home: &str) -> Option<String> {
    let mut s = String::new();
    for p in v {
        match *p {
            Part::Lit(ref l) => s.push_str(l),
            Part::Var(n, _) => match env.get(n) {
                Some(&Val::Text(ref t)) => s.push_str(t),
                _ => return None,
            },
            Part::Tilde => s.push_str(home),
        }
    }
    Some(s)
}
fn val() -> Val {
    match weighted(&[6, 3, 1]) {
        0 => Val::Text(pick(&["/usr/share/kicad", "", "~", "~/m", "$A", "${AB}", "a b", "https://github.com/KiCad", "$", "é", "x=y"]).to_string()),
        1 => Val::Text(gen::text()),
        _ => Val::Bytes(vec![b'/', 0xff, b'x']),
    }
}
fn set(env: &mut Env, n: &'static str, v: Option<Val>) {
    match v {
        Some(v) => {
            match v {
                Val::Text(ref t) => std::env::set_var(n, t),
                Val::Bytes(ref b) => std::env::set_var(n, OsString::from_vec(b.clone())),
            }
            env.insert(n, v);
        }
        None => {
            std::env::remove_var(n);
            env.remove(n);
        }
    }
}
fn lib(parts: &[Part]) -> Lib {
    Lib { uri: text_of(parts), ..crate::gen::table::lib() }
}
fn check(model: &FpLibTable, x: &FpLibTable, what: &str) -> R {
    let (a, b) = (gen::dbg(model), gen::dbg(x));
    ensure!(a == b, "changed", "{}: the table is different: {}", what, clip(&crate::util::diff(&a, &b), 400));
    Ok(())
}

/// one step of a life; drawn before the life starts so that the observer knows it too
#[derive(Debug)]
enum Step {
    Set(&'static str, Option<Val>),
    Home(String),
    Expand(u32),
    Uri(u32, Vec<Part>),
    Add(Lib, Vec<Part>),
    Save,
    Reload,
}

fn a_life(model: &mut FpLibTable, parts: &mut Vec<Vec<Part>>, steps: &[Step], m: Mode) -> R {
    let mut env = Env::new();
    for n in VARS {
        set(&mut env, n, None)
    }
    let mut home = "/home/sim".to_string();
    std::env::set_var("HOME", &home);
    let mut x = match op("load", || load(Kind::Tab, PATH, 0))? {
        Ok(Loaded::Tab(t)) => t,
        Ok(_) => return viol("harness", "load".into()),
        Err(e) => return viol("spurious", format!("loading the table failed: {}", e)),
    };
    check(model, &x, "loaded")?;
    let mut stored = Doc::Tab(model.clone());
    let mut changes = 0;
    for s in steps {
        k().event(&clip(&format!("{:?}", s), 200));
        match *s {
            Step::Set(n, ref v) => {
                set(&mut env, n, v.clone());
                changes += 1
            }
            Step::Home(ref h) => {
                std::env::set_var("HOME", h);
                home = h.clone();
                changes += 1
            }
            Step::Expand(i) => {
                if x.libs.is_empty() {
                    continue;
                }
                let i = i as usize % x.libs.len();
                plan(m);
                let r = op("expand", || x.libs[i].get_expanded_uri())?;
                k().plan = Plan::none();
                let want = expand(&parts[i], &env, &home);
                if changes > 0 && parts[i].iter().any(|p| !matches!(*p, Part::Lit(_))) {
                    nontrivial()
                }
                match (want, r) {
                    (Some(w), Ok(g)) => {
                        ensure!(w == g, "wrong", "{:?} expanded to {:?}, expected {:?} (environment {:?}, home {})", x.libs[i].uri, g, w, env, home);
                        probe("expanded")
                    }
                    (None, Err(_)) => probe("not_set"),
                    (Some(w), Err(e)) => return viol("spurious", format!("{:?} should expand to {:?} (environment {:?}) but: {}", x.libs[i].uri, w, env, e)),
                    (None, Ok(g)) => return viol("missing", format!("{:?} expanded to {:?} although a variable has no text value (environment {:?})", x.libs[i].uri, g, env)),
                }
                check(model, &x, "after expanding")?;
            }
            Step::Uri(i, ref p) => {
                if x.libs.is_empty() {
                    continue;
                }
                let i = i as usize % x.libs.len();
                x.libs[i].uri = text_of(p);
                model.libs[i].uri = text_of(p);
                parts[i] = p.clone();
            }
            Step::Add(ref l, ref p) => {
                x.libs.push(l.clone());
                model.libs.push(l.clone());
                parts.push(p.clone())
            }
            Step::Save => {
                super::hist::save_retry(&Loaded::Tab(x.clone()), PATH, m)?;
                stored = Doc::Tab(model.clone());
                let t = String::from_utf8_lossy(&k().get(PATH).unwrap_or_default()).into_owned();
                if let Some(e) = stored.check_text(&t) {
                    return viol("stored", format!("the stored table is different: {}", clip(&e, 400)));
                }
            }
            Step::Reload => {
                // what was not saved is lost: save first so that the observer's view stays simple
                if let Ok(Loaded::Tab(t)) = op("load", || load(Kind::Tab, PATH, 0))? {
                    if let Some(e) = stored.check_loaded(&Loaded::Tab(t.clone()), None) {
                        return viol("reloaded", clip(&e, 400));
                    }
                }
            }
        }
    }
    Ok(())
}

fn run() -> R {
    let m = mode();
    let mut model = FpLibTable { libs: vec![] };
    let mut parts = vec![];
    for _ in 0..1 + small(3) {
        let p = location();
        model.libs.push(lib(&p));
        parts.push(p)
    }
    let doc = Doc::Tab(model.clone());
    k().put(PATH, doc.render().as_bytes());
    for _ in 0..1 + small(2) {
        let mut steps = vec![];
        for _ in 0..1 + small(11) {
            steps.push(match weighted(&[6, 1, 8, 2, 2, 2, 1]) {
                0 => Step::Set(pick(VARS), if chance(3, 4) { Some(val()) } else { None }),
                1 => Step::Home(pick(&["/home/sim", "/home/other", "/h m", "/"]).to_string()),
                2 => Step::Expand(below(4)),
                3 => Step::Uri(below(4), location()),
                4 => {
                    let p = location();
                    Step::Add(lib(&p), p)
                }
                5 => Step::Save,
                _ => Step::Reload,
            })
        }
        // a life ends with everything saved, so that the next one starts from the model
        steps.push(Step::Save);
        let (before, parts_before) = (model.clone(), parts.clone());
        life(Crash::Never, || {
            let (mut a, mut b) = (before, parts_before);
            a_life(&mut a, &mut b, &steps, m).map(|_| vec![])
        });
        for s in &steps {
            match *s {
                Step::Uri(i, ref p) if !model.libs.is_empty() => {
                    let i = i as usize % model.libs.len();
                    model.libs[i].uri = text_of(p);
                    parts[i] = p.clone()
                }
                Step::Add(ref l, ref p) => {
                    model.libs.push(l.clone());
                    parts.push(p.clone())
                }
                _ => (),
            }
        }
    }
    Ok(())
}
