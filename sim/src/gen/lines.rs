//! Line-oriented formats, independently of the library: expected lines, rendering, comparing.
use crate::choice::{below, chance};

#[derive(Clone, Debug)]
pub enum Tk {
    W(String),
    Q(String),
    I(i64),
    N(f64),
}
pub fn w(s: &str) -> Tk {
    Tk::W(s.to_string())
}
pub fn q(s: &str) -> Tk {
    Tk::Q(s.to_string())
}

#[derive(Clone, Debug)]
pub enum Ln {
    /// exactly this line
    Raw(String),
    /// words separated by blanks
    T(Vec<Tk>),
    /// numbers, indented by a tab
    Num(Vec<Tk>),
}
pub fn raw(s: &str) -> Ln {
    Ln::Raw(s.to_string())
}

#[derive(Clone, Copy)]
pub struct LStyle {
    pub newline: &'static str,
    pub wide: bool,
}
impl LStyle {
    pub fn plain() -> LStyle {
        LStyle { newline: "\n", wide: false }
    }
    pub fn random() -> LStyle {
        LStyle { newline: if chance(1, 5) { "\r\n" } else { "\n" }, wide: chance(1, 3) }
    }
}

fn toks(o: &mut String, v: &[Tk], st: &LStyle) {
    for (i, t) in v.iter().enumerate() {
        if i > 0 {
            o.push(' ');
            if st.wide && chance(1, 4) {
                for _ in 0..1 + below(4) {
                    o.push(' ')
                }
            }
        }
        match *t {
            Tk::W(ref s) => o.push_str(s),
            Tk::Q(ref s) => {
                o.push('"');
                o.push_str(s);
                o.push('"')
            }
            Tk::I(n) => o.push_str(&n.to_string()),
            Tk::N(f) => o.push_str(&f.to_string()),
        }
    }
}

pub fn render(v: &[Ln], st: &LStyle) -> String {
    let mut o = String::new();
    for l in v {
        match *l {
            Ln::Raw(ref s) => o.push_str(s),
            Ln::T(ref v) => toks(&mut o, v, st),
            Ln::Num(ref v) => {
                o.push('\t');
                toks(&mut o, v, st);
                if st.wide && chance(1, 4) {
                    o.push_str("  ")
                }
            }
        }
        o.push_str(st.newline);
    }
    o
}

/// split at blanks, keeping quoted text together
fn split(s: &str) -> Vec<(bool, String)> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i] == ' ' || c[i] == '\t' {
            i += 1;
            continue;
        }
        let mut t = String::new();
        if c[i] == '"' {
            i += 1;
            while i < c.len() && c[i] != '"' {
                t.push(c[i]);
                i += 1
            }
            i += 1;
            v.push((true, t));
        } else {
            while i < c.len() && c[i] != ' ' && c[i] != '\t' {
                t.push(c[i]);
                i += 1
            }
            v.push((false, t));
        }
    }
    v
}

fn same(want: &Ln, got: &str) -> bool {
    match *want {
        Ln::Raw(ref s) => s == got,
        Ln::T(ref v) | Ln::Num(ref v) => {
            let g = split(got);
            g.len() == v.len()
                && v.iter().zip(&g).all(|(t, (quoted, s))| match *t {
                    Tk::W(ref x) => !quoted && x == s,
                    Tk::Q(ref x) => *quoted && x == s,
                    Tk::I(n) => !quoted && s.parse::<i64>() == Ok(n),
                    Tk::N(f) => !quoted && s.parse::<f64>() == Ok(f),
                })
        }
    }
}

/// None: the text consists of exactly these lines
pub fn check_text(want: &[Ln], text: &str) -> Option<String> {
    if !text.is_empty() && !text.ends_with('\n') {
        return Some("the last line is not terminated".into());
    }
    let mut got: Vec<&str> = text.split('\n').collect();
    got.pop();
    for (i, wl) in want.iter().enumerate() {
        match got.get(i) {
            None => return Some(format!("line {} is missing: {:?}", i + 1, render(&[wl.clone()], &LStyle::plain()))),
            Some(g) => {
                if !same(wl, g) {
                    return Some(format!("line {}: expected {:?}, written {:?}", i + 1, render(&[wl.clone()], &LStyle::plain()), g));
                }
            }
        }
    }
    if got.len() > want.len() {
        return Some(format!("unexpected line {}: {:?}", want.len() + 1, got[want.len()]));
    }
    None
}
