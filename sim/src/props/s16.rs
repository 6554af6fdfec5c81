//! S16: printing into a failing or slow sink.
use super::doc::{parse, size, Doc, Kind, Loaded};
use super::*;
use crate::choice::{below, chance, pick, small};
use crate::ensure;
use crate::kernel::{k, Plan};
use crate::run::{op, viol, R};
use crate::util::{clip, diff};
use kicad_parse_gen::schematic::Element;
use kicad_parse_gen::symbol_lib::Draw;
use std::fmt::{self, Display, Write as _};
use std::io::{self, Write as _};

pub const PROP: Prop = Prop {
    id: "S16",
    run,
    quick: 120_000,
    thorough: 3_000_000,
    directed: &[],
    how: "One evaluation is one simulated run: a drawn schematic or symbol library, built by the generator or parsed, is printed as a whole or in part into 1-6 sinks: one that fails at a drawn byte or call (once or for ever) after taking a drawn part of the text, a writer with short writes, interruptions and errors, or a file of the simulated file system with drawn write faults. What the sink received is compared with the complete text, and that with the reference serialiser.",
    nontrivial: "the sink failed or took less than offered.",
    assumptions: &["Documents are drawn from the well-formed domain described in DESIGN.md."],
};

/// a text sink that fails
struct Text {
    got: String,
    /// fail in the call that would pass this many bytes
    bytes: usize,
    /// fail in this call
    calls: usize,
    /// fail once or for ever
    once: bool,
    failed: u32,
    after: u32,
}
impl fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed > 0 {
            self.after += 1;
            if !self.once {
                return Err(fmt::Error);
            }
        } else if self.calls == 0 || self.got.len() + s.len() > self.bytes {
            self.failed += 1;
            let mut n = self.bytes.saturating_sub(self.got.len()).min(s.len());
            while !s.is_char_boundary(n) {
                n -= 1
            }
            self.got.push_str(&s[..n]);
            return Err(fmt::Error);
        }
        self.calls = self.calls.saturating_sub(1);
        self.got.push_str(s);
        Ok(())
    }
}

/// a byte sink that is slow, and may fail
struct Bytes {
    got: Vec<u8>,
    bytes: usize,
    once: bool,
    failed: u32,
    slow: u32,
    zero: bool,
    rng: u32,
}
impl io::Write for Bytes {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed > 0 && !self.once {
            return Err(io::Error::from_raw_os_error(libc::ENOSPC));
        }
        if self.failed == 0 && self.got.len() + b.len() > self.bytes {
            let n = self.bytes.saturating_sub(self.got.len()).min(b.len());
            if n > 0 {
                self.got.extend_from_slice(&b[..n]);
                return Ok(n);
            }
            self.failed += 1;
            if self.zero {
                return Ok(0);
            }
            return Err(io::Error::from_raw_os_error(libc::ENOSPC));
        }
        self.rng = self.rng.wrapping_mul(1103515245).wrapping_add(12345);
        let r = self.rng >> 16;
        if self.slow > 0 && r % self.slow == 0 {
            if r & 0x1000 != 0 {
                return Err(io::Error::from_raw_os_error(libc::EINTR));
            }
            let n = 1 + (r as usize >> 3) % b.len().max(1);
            let n = n.min(b.len());
            self.got.extend_from_slice(&b[..n]);
            return Ok(n);
        }
        self.got.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// a part of the document, and its name
fn part<'a>(x: &'a Loaded) -> (&'static str, Box<dyn Display + 'a>) {
    let mut v: Vec<(&'static str, &'a dyn Display)> = vec![];
    match *x {
        Loaded::Sch(ref s) => {
            v.push(("description", &s.description));
            for e in &s.elements {
                v.push(("element", e));
                match *e {
                    Element::Component(ref c) => {
                        v.push(("component", c));
                        for f in &c.fields {
                            v.push(("component field", f))
                        }
                    }
                    Element::Wire(ref x) => v.push(("wire", x)),
                    Element::Connection(ref x) => v.push(("connection", x)),
                    Element::NoConnect(ref x) => v.push(("no-connect", x)),
                    Element::Text(ref x) => v.push(("text", x)),
                    Element::Other(_) => (),
                }
            }
            for e in &s.sheets {
                v.push(("sheet", e));
                for l in &e.labels {
                    v.push(("sheet label", l))
                }
            }
        }
        Loaded::Lib(ref l) => {
            for s in &l.symbols {
                v.push(("symbol", s));
                for f in &s.fields {
                    v.push(("field", f))
                }
                for d in &s.draw {
                    v.push(("drawing", d));
                    match *d {
                        Draw::Pin(ref p) => v.push(("pin", p)),
                        Draw::Rectangle(ref r) => v.push(("rectangle", r)),
                        Draw::Other(_) => (),
                    }
                }
            }
        }
        _ => (),
    }
    if v.is_empty() || chance(1, 2) {
        return whole(x);
    }
    let (n, d) = v[below(v.len() as u32) as usize];
    (n, Box::new(d))
}
fn whole<'a>(x: &'a Loaded) -> (&'static str, Box<dyn Display + 'a>) {
    match *x {
        Loaded::Sch(ref s) => ("schematic", Box::new(s)),
        Loaded::Lib(ref l) => ("symbol library", Box::new(l)),
        _ => unreachable!(),
    }
}

fn judge(name: &str, sink: &str, all: &str, got: &[u8], ok: bool, failed: bool) -> R {
    if failed {
        nontrivial();
        ensure!(!ok, "unreported", "printing a {} into a {} that failed succeeded", name, sink);
        probe("failure_reported")
    } else {
        ensure!(ok, "spurious", "printing a {} into a {} that took everything failed", name, sink);
        ensure!(got == all.as_bytes(), "incomplete", "printing a {} into a {} gave another text: {}", name, sink, clip(&diff(all, &String::from_utf8_lossy(got)), 300));
    }
    ensure!(all.as_bytes().starts_with(got), "no_prefix", "a {} that failed while printing a {} received more or other text than before the failure: {}", sink, name, clip(&diff(all, &String::from_utf8_lossy(got)), 300));
    Ok(())
}

fn run() -> R {
    let kind = *pick(&[Kind::Sch, Kind::Lib]);
    let doc = Doc::gen(kind, size());
    // the model's own structure has no rotations: only a parsed schematic has
    let x = match doc {
        Doc::Lib(ref l) if chance(1, 2) => Loaded::Lib(crate::gen::symbol_lib::clone(l)),
        _ => {
            let t = doc.render();
            match op("parse", || parse(kind, &t, None))? {
                Ok(x) => x,
                Err(e) => return viol("spurious", format!("parsing failed: {}", e)),
            }
        }
    };
    let full = {
        let (_, w) = whole(&x);
        op("print", || w.to_string())?
    };
    if let Some(e) = doc.check_text(&full) {
        return viol("text", clip(&e, 400));
    }
    k().event(&format!("document {:016x}", crate::util::hash(full.as_bytes())));
    for _ in 0..1 + small(5) {
        let (name, d) = part(&x);
        let all = op("print", || d.to_string())?;
        ensure!(full.contains(&all), "part", "the text of a {} is not part of the text of its document: {}", name, clip(&all, 200));
        let at = if chance(1, 5) { usize::MAX } else { below(all.len() as u32 + 2) as usize };
        let how = below(3);
        k().event(&format!("{} of {} bytes, sink {} fails at {}", name, all.len(), how, at));
        match how {
            0 => {
                let calls = if chance(1, 2) { usize::MAX } else { below(40) as usize };
                let mut s = Text { got: String::new(), bytes: at, calls, once: chance(1, 2), failed: 0, after: 0 };
                let r = op("print to text", || write!(s, "{}", d))?;
                judge(name, "text sink", &all, s.got.as_bytes(), r.is_ok(), s.failed > 0)?;
                if s.failed > 0 && s.once {
                    probe("failed_once")
                }
                ensure!(s.after == 0, "continued", "printing a {} went on after the sink had failed", name);
            }
            1 => {
                let mut s = Bytes { got: vec![], bytes: at, once: chance(1, 2), failed: 0, slow: *pick(&[0, 1, 2, 5]), zero: chance(1, 4), rng: below(1 << 30) };
                let r = op("print to bytes", || write!(s, "{}", d))?;
                if s.slow > 0 {
                    nontrivial();
                    probe("slow_sink")
                }
                judge(name, "byte sink", &all, &s.got, r.is_ok(), s.failed > 0)?;
            }
            _ => {
                let m = mode();
                plan(m);
                // each call moves a byte, or is interrupted
                k().max_steps += 20 * all.len() as u64;
                let mk = mark();
                let mut opened = false;
                let r = op("print to file", || -> io::Result<()> {
                    let mut f = std::fs::File::create("/sim/w/out")?;
                    opened = true;
                    write!(f, "{}", d)
                })?;
                let (soft, hard) = (mk.soft(), mk.hard());
                k().plan = Plan::none();
                if soft + hard > 0 {
                    nontrivial()
                }
                if !opened {
                    continue;
                }
                let got = k().get("/sim/w/out").unwrap_or_default();
                judge(name, "file", &all, &got, r.is_ok(), r.is_err() && hard > 0)?;
                if r.is_ok() {
                    ensure!(got == all.as_bytes(), "incomplete", "printing a {} into a file succeeded with {} of {} bytes stored", name, got.len(), all.len());
                }
            }
        }
    }
    Ok(())
}
