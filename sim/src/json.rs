//! Just enough JSON.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    I(i64),
    F(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn s<T: Into<String>>(s: T) -> J {
        J::S(s.into())
    }
    pub fn map(m: &BTreeMap<String, u64>) -> J {
        J::O(m.iter().map(|(k, v)| (k.clone(), J::I(*v as i64))).collect())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match *self {
            J::O(ref v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self) -> &str {
        match *self {
            J::S(ref s) => s,
            _ => "",
        }
    }
    pub fn int(&self) -> i64 {
        match *self {
            J::I(i) => i,
            J::F(f) => f as i64,
            _ => 0,
        }
    }
    pub fn arr(&self) -> &[J] {
        match *self {
            J::A(ref v) => v,
            _ => &[],
        }
    }
    pub fn write(&self, o: &mut String, ind: usize) {
        match *self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if b { "true" } else { "false" }),
            J::I(i) => o.push_str(&i.to_string()),
            J::F(f) => o.push_str(&format!("{:.3}", f)),
            J::S(ref s) => quote(s, o),
            J::A(ref v) => {
                let flat = v.iter().all(|x| matches!(x, J::I(_)));
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if !flat {
                        nl(o, ind + 1);
                    }
                    x.write(o, ind + 1);
                }
                if !flat && !v.is_empty() {
                    nl(o, ind);
                }
                o.push(']');
            }
            J::O(ref v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    nl(o, ind + 1);
                    quote(k, o);
                    o.push_str(": ");
                    x.write(o, ind + 1);
                }
                if !v.is_empty() {
                    nl(o, ind);
                }
                o.push('}');
            }
        }
    }
    pub fn pretty(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0);
        s.push('\n');
        s
    }
}

fn nl(o: &mut String, ind: usize) {
    o.push('\n');
    for _ in 0..ind {
        o.push(' ');
    }
}

fn quote(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

pub fn parse(s: &str) -> Option<J> {
    let b = s.as_bytes();
    let mut i = 0;
    let r = val(b, &mut i)?;
    Some(r)
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_ascii_whitespace() {
        *i += 1;
    }
}

fn val(b: &[u8], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        b'{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if *b.get(*i)? == b'}' {
                    *i += 1;
                    return Some(J::O(v));
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let k = match val(b, i)? {
                    J::S(s) => s,
                    _ => return None,
                };
                ws(b, i);
                if *b.get(*i)? != b':' {
                    return None;
                }
                *i += 1;
                let x = val(b, i)?;
                v.push((k, x));
            }
        }
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match *b.get(*i)? {
                    b']' => {
                        *i += 1;
                        return Some(J::A(v));
                    }
                    b',' => *i += 1,
                    _ => v.push(val(b, i)?),
                }
            }
        }
        b'"' => {
            *i += 1;
            let mut s = vec![];
            loop {
                match *b.get(*i)? {
                    b'"' => {
                        *i += 1;
                        return Some(J::S(String::from_utf8(s).ok()?));
                    }
                    b'\\' => {
                        *i += 1;
                        match *b.get(*i)? {
                            b'n' => s.push(b'\n'),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*i + 1..*i + 5)?).ok()?;
                                let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                                s.extend_from_slice(c.to_string().as_bytes());
                                *i += 4;
                            }
                            c => s.push(c),
                        }
                        *i += 1;
                    }
                    c => {
                        s.push(c);
                        *i += 1;
                    }
                }
            }
        }
        b't' => {
            *i += 4;
            Some(J::B(true))
        }
        b'f' => {
            *i += 5;
            Some(J::B(false))
        }
        b'n' => {
            *i += 4;
            Some(J::Null)
        }
        _ => {
            let st = *i;
            while *i < b.len() && matches!(b[*i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *i += 1;
            }
            let t = std::str::from_utf8(&b[st..*i]).ok()?;
            match t.parse::<i64>() {
                Ok(x) => Some(J::I(x)),
                Err(_) => Some(J::F(t.parse().ok()?)),
            }
        }
    }
}
