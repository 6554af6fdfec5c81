//! The properties.
pub mod doc;
pub mod edits;
mod hist;
mod s01;
mod s02;
mod s08;
mod s09;
mod s10;
mod s14;
mod s15;
mod s16;
mod s17;
mod s18;
mod s19;
#[cfg(feature = "tools")]
mod s20;
mod tree;

use crate::choice::{below, chance, pick};
use crate::kernel::{k, Plan, ALL_FAULTS, F};
use crate::run::R;

pub struct Prop {
    pub id: &'static str,
    pub run: fn() -> R,
    pub quick: u64,
    pub thorough: u64,
    pub directed: &'static [(&'static str, fn() -> R)],
    /// what one evaluation is
    pub how: &'static str,
    pub nontrivial: &'static str,
    pub assumptions: &'static [&'static str],
}

pub const ALL: &[Prop] = &[s01::PROP, s02::PROP, hist::S03, hist::S04, hist::S05, hist::S06, hist::S07, s08::PROP, s09::PROP, s10::PROP, tree::S11, tree::S12, tree::S13, s14::PROP, s15::PROP, s16::PROP, s17::PROP, s18::PROP, s19::PROP,
    #[cfg(feature = "tools")]
    s20::PROP,
];

// ---- fault plans

/// a random subset, at least one
pub fn subset(fs: &[F]) -> u64 {
    if below(3) == 0 {
        return Plan::mask_of(fs);
    }
    let mut m = 0;
    for f in fs {
        if chance(1, 2) {
            m |= 1 << (*f as u8)
        }
    }
    if m == 0 {
        m = 1 << (*pick(fs) as u8)
    }
    m
}

pub const HARD_READ: &[F] = &[F::EioRead, F::EisdirRead, F::OpenEacces, F::OpenEmfile, F::OpenEnoent, F::OpenEio, F::OpenOther, F::ReadOther, F::StatFail];
pub const HARD_WRITE: &[F] = &[F::EioWrite, F::Enospc, F::Edquot, F::Efbig, F::OpenEacces, F::OpenEmfile, F::OpenEio, F::OpenEnospc, F::OpenErofs, F::OpenOther, F::WriteOther, F::WriteZero, F::SyncFail, F::MetaFail];
const SOFT: &[F] = &[F::ShortRead, F::ShortWrite, F::EintrRead, F::EintrWrite, F::EintrOpen, F::StatSize];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Clean,
    Soft,
    Hard,
}

pub fn mode() -> Mode {
    [Mode::Clean, Mode::Soft, Mode::Hard][crate::choice::weighted(&[2, 3, 4])]
}

/// the faults of one operation
pub fn plan(m: Mode) {
    k().plan = match m {
        Mode::Clean => Plan::none(),
        Mode::Soft => Plan { mask: subset(SOFT), rate: *pick(&[2, 3, 6, 1]), ..Plan::none() },
        Mode::Hard => {
            let mut p = Plan { mask: subset(ALL_FAULTS), ..Plan::none() };
            match below(4) {
                0 => {
                    // one fault, at a chosen call
                    p.mask = subset(HARD_READ) | subset(HARD_WRITE);
                    p.oneshot = Some(below(6))
                }
                1 => {
                    p.mask = subset(SOFT) | (1 << (*pick(HARD_READ) as u8)) | (1 << (*pick(HARD_WRITE) as u8));
                    p.rate = *pick(&[3, 6]);
                }
                2 => p.rate = *pick(&[4, 8, 16]),
                _ => {
                    p.mask = subset(SOFT);
                    p.rate = *pick(&[0, 4]);
                    let max = *pick(&[1u32, 16, 300, 5000, 40000]);
                    p.space = Some(below(max) as u64)
                }
            }
            p
        }
    };
    k().eintr_run = 0;
}

/// counts of fired faults since the mark was made
pub struct Mark {
    soft: u64,
    hard: u64,
}
pub fn mark() -> Mark {
    Mark { soft: k().soft_fired, hard: k().hard_fired }
}
impl Mark {
    pub fn soft(&self) -> u64 {
        k().soft_fired - self.soft
    }
    pub fn hard(&self) -> u64 {
        k().hard_fired - self.hard
    }
}

pub fn nontrivial() {
    k().nontrivial = true
}
pub fn probe(s: &str) {
    k().count(&format!("probe.{}", s))
}

/// text of any length
pub fn any_text() -> String {
    let unit = *pick(&["", "x", "line\n", "é", "日本語\r\n", "\u{0}", "\u{10ffff}", "(module \"a b\")\n", "{}{{}}%s\\n", "\u{feff}", "\u{1a}", "\u{85}a\u{2028}", "\t \u{b}\u{c}", "\u{1f}\u{7f}"]);
    let n = match below(5) {
        // more than a megabyte
        0 if chance(1, 300) => {
            probe("huge_text");
            (1_000_000 + below(2_000_000)) / unit.len().max(1) as u32
        }
        0 => below(4),
        1 => below(60),
        2 => below(3000),
        3 => *pick(&[8191u32, 8192, 8193, 16384, 32768, 4096]) / unit.len().max(1) as u32 + below(3),
        _ => below(20000),
    };
    let mut s = String::new();
    for i in 0..n {
        s.push_str(unit);
        if i % 7 == 3 {
            s.push((b'a' + (i % 26) as u8) as char)
        }
    }
    if chance(1, 2) {
        s.push_str(&crate::gen::text());
    }
    s
}
