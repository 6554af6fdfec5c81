//! Symbolic expressions, independently of the library: expected trees, rendering with the freedoms
//! a reader has to accept, tokenising and comparing what was written.
use crate::choice::{below, chance};

#[derive(Clone, Debug)]
pub enum T {
    /// a string atom
    S(String),
    /// a number
    N(f64),
    I(i64),
    /// hexadecimal
    X(i64),
    L(Vec<T>),
    /// written always, but a reader takes its absence for the same (default) value
    Opt(Box<T>),
    /// elements that may be stored in any order; written in this one
    Any(Vec<T>),
    /// elements inserted in place
    Seq(Vec<T>),
    /// (what a stored file may have, what is written)
    Alt(Box<T>, Box<T>),
}

pub fn s(x: &str) -> T {
    T::S(x.to_string())
}
pub fn l(name: &str, mut v: Vec<T>) -> T {
    v.insert(0, s(name));
    T::L(v)
}
pub fn opt(c: bool, t: T) -> T {
    if c {
        T::Opt(Box::new(t))
    } else {
        t
    }
}
pub fn none() -> T {
    T::Seq(vec![])
}

/// how a file is rendered
#[derive(Clone, Copy)]
pub struct Style {
    pub newline: &'static str,
    pub quote_all: bool,
    pub wide: bool,
    pub plain: bool,
}

impl Style {
    pub fn plain() -> Style {
        Style { newline: "\n", quote_all: false, wide: false, plain: true }
    }
    pub fn random() -> Style {
        if below(3) == 0 {
            return Style::plain();
        }
        Style {
            newline: if chance(1, 5) { "\r\n" } else { "\n" },
            quote_all: chance(1, 6),
            wide: chance(1, 4),
            plain: false,
        }
    }
}

pub fn needs_quotes(s: &str) -> bool {
    s.is_empty() || s.chars().any(|c| c.is_whitespace() || "(){}%\"#".contains(c))
}

fn atom(out: &mut String, s: &str, st: &Style) {
    if needs_quotes(s) || st.quote_all || (!st.plain && chance(1, 12)) {
        out.push('"');
        out.push_str(s);
        out.push('"');
    } else {
        out.push_str(s)
    }
}

fn num(out: &mut String, f: f64, st: &Style) {
    let mut t = format!("{}", f);
    if !st.plain && chance(1, 10) {
        if t.contains('.') {
            t.push('0')
        } else {
            t.push_str(".0")
        }
    }
    out.push_str(&t)
}

fn gap(out: &mut String, st: &Style, depth: usize, list: bool) {
    if list && depth < 3 {
        out.push_str(st.newline);
        for _ in 0..depth {
            out.push_str("  ");
        }
    } else {
        out.push(' ');
    }
    if st.wide && chance(1, 8) {
        for _ in 0..1 + below(3) {
            out.push_str([" ", "  ", "\n", "\t"][below(4) as usize]);
        }
    }
}

fn flatten<'a>(v: &'a [T], st: &Style, out: &mut Vec<&'a T>) {
    for t in v {
        match *t {
            T::Opt(ref t) => {
                if st.plain || !chance(1, 3) {
                    flatten(std::slice::from_ref(&**t), st, out)
                }
            }
            T::Seq(ref v) => flatten(v, st, out),
            T::Any(ref v) => {
                let mut w = vec![];
                flatten(v, st, &mut w);
                if !st.plain && w.len() > 1 && chance(1, 3) {
                    for i in (1..w.len()).rev() {
                        let j = below(i as u32 + 1) as usize;
                        // 0 keeps the order
                        w.swap(i, i - j);
                    }
                }
                out.extend(w)
            }
            T::Alt(ref a, ref b) => {
                let x = if !st.plain && chance(1, 2) { a } else { b };
                flatten(std::slice::from_ref(&**x), st, out)
            }
            _ => out.push(t),
        }
    }
}

fn rend(out: &mut String, t: &T, st: &Style, depth: usize) {
    match *t {
        T::S(ref x) => atom(out, x, st),
        T::N(f) => num(out, f, st),
        T::I(i) => out.push_str(&i.to_string()),
        T::X(i) => {
            let h = if !st.plain && chance(1, 10) { format!("{:x}", i) } else { format!("{:X}", i) };
            out.push_str(&h)
        }
        T::L(ref v) => {
            out.push('(');
            let mut w = vec![];
            flatten(v, st, &mut w);
            for (i, x) in w.iter().enumerate() {
                if i > 0 {
                    gap(out, st, depth + 1, matches!(x, T::L(_)));
                }
                rend(out, x, st, depth + 1);
            }
            if !st.plain && chance(1, 10) {
                out.push_str(if chance(1, 2) { st.newline } else { " " })
            }
            out.push(')')
        }
        _ => unreachable!(),
    }
}

/// a stored file with this content
pub fn render(t: &T, st: &Style) -> String {
    let mut o = String::new();
    rend(&mut o, t, st, 0);
    if st.plain || !chance(1, 8) {
        o.push_str(st.newline);
    }
    o
}

// ---- reading back what was written

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    A(String),
    L(Vec<Tok>),
}

pub fn tokenise(src: &str) -> Result<Tok, String> {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut stack: Vec<Vec<Tok>> = vec![vec![]];
    while i < c.len() {
        match c[i] {
            ' ' | '\n' | '\r' | '\t' => i += 1,
            '(' => {
                stack.push(vec![]);
                i += 1
            }
            ')' => {
                let t = stack.pop().unwrap();
                match stack.last_mut() {
                    Some(x) => x.push(Tok::L(t)),
                    None => return Err(format!("unbalanced ) at {}", i)),
                }
                i += 1
            }
            '"' => {
                let mut a = String::new();
                i += 1;
                loop {
                    match c.get(i) {
                        None => return Err("unterminated string".into()),
                        Some('"') => break,
                        Some(x) => a.push(*x),
                    }
                    i += 1
                }
                i += 1;
                stack.last_mut().unwrap().push(Tok::A(a));
            }
            _ => {
                let mut a = String::new();
                while i < c.len() && !" \n\r\t()".contains(c[i]) {
                    a.push(c[i]);
                    i += 1
                }
                stack.last_mut().unwrap().push(Tok::A(a));
            }
        }
    }
    if stack.len() != 1 {
        return Err(format!("{} open parentheses at the end", stack.len() - 1));
    }
    let mut top = stack.pop().unwrap();
    if top.len() != 1 {
        return Err(format!("{} top level items", top.len()));
    }
    Ok(top.pop().unwrap())
}

fn flat_all(v: &[T], out: &mut Vec<T>) {
    for t in v {
        match *t {
            T::Opt(ref t) => flat_all(std::slice::from_ref(&**t), out),
            T::Seq(ref v) | T::Any(ref v) => flat_all(v, out),
            T::Alt(_, ref b) => flat_all(std::slice::from_ref(&**b), out),
            _ => out.push(t.clone()),
        }
    }
}

pub fn show(t: &T) -> String {
    let mut o = String::new();
    let mut w = vec![];
    flat_all(std::slice::from_ref(t), &mut w);
    for x in &w {
        rend(&mut o, x, &Style::plain(), 9);
    }
    o
}

/// None: equal; otherwise where they differ.  Lists under `Any` may be in any order.
pub fn compare(want: &T, got: &Tok, path: &str) -> Option<String> {
    match (want, got) {
        (T::S(a), Tok::A(b)) => {
            if a == b {
                None
            } else {
                Some(format!("{}: expected {:?}, written {:?}", path, a, b))
            }
        }
        (T::N(f), Tok::A(b)) => match b.parse::<f64>() {
            Ok(g) if g == *f => None,
            _ => Some(format!("{}: expected {}, written {:?}", path, f, b)),
        },
        (T::I(f), Tok::A(b)) => match b.parse::<i64>() {
            Ok(g) if g == *f => None,
            _ => Some(format!("{}: expected {}, written {:?}", path, f, b)),
        },
        (T::X(f), Tok::A(b)) => match i64::from_str_radix(b, 16) {
            Ok(g) if g == *f => None,
            _ => Some(format!("{}: expected {:X}, written {:?}", path, f, b)),
        },
        (T::L(a), Tok::L(b)) => {
            let name = match a.first() {
                Some(T::S(n)) => n.clone(),
                _ => String::new(),
            };
            let p = format!("{}/{}", path, name);
            compare_seq(a, b, &p)
        }
        (w, g) => Some(format!("{}: expected {}, written {:?}", path, show(w), g)),
    }
}

fn compare_seq(a: &[T], b: &[Tok], p: &str) -> Option<String> {
    let mut pos = 0;
    for t in a {
        match *t {
            T::Any(ref v) => {
                let mut w = vec![];
                flat_all(v, &mut w);
                if pos + w.len() > b.len() {
                    return Some(format!("{}: missing elements, expected {}", p, show(t)));
                }
                let mut left: Vec<&Tok> = b[pos..pos + w.len()].iter().collect();
                for x in &w {
                    match left.iter().position(|g| compare(x, g, p).is_none()) {
                        Some(i) => {
                            left.remove(i);
                        }
                        None => return Some(format!("{}: not found in the output: {}", p, show(x))),
                    }
                }
                pos += w.len();
            }
            _ => {
                let mut w = vec![];
                // a Seq may contain Any: keep it by handling its elements one by one
                match *t {
                    T::Seq(ref v) => {
                        if v.iter().any(|x| matches!(x, T::Any(_))) {
                            // (not used by the models)
                            unreachable!()
                        }
                        flat_all(v, &mut w)
                    }
                    _ => flat_all(std::slice::from_ref(t), &mut w),
                }
                for x in &w {
                    match b.get(pos) {
                        None => return Some(format!("{}: missing {}", p, show(x))),
                        Some(g) => {
                            if let Some(e) = compare(x, g, p) {
                                return Some(e);
                            }
                        }
                    }
                    pos += 1;
                }
            }
        }
    }
    if pos != b.len() {
        return Some(format!("{}: unexpected {:?} in the output", p, b[pos]));
    }
    None
}

/// compare a written text with the expected tree
pub fn check_text(want: &T, text: &str) -> Option<String> {
    match tokenise(text) {
        Err(e) => Some(format!("the text is not one symbolic expression: {}", e)),
        Ok(t) => compare(want, &t, ""),
    }
}
