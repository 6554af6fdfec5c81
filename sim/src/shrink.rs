//! Minimisation of a failing choice sequence: every trial runs in its own process.
use crate::run::{exec, Outcome, Source, R};
use std::time::Instant;

pub fn shrink(body: fn() -> R, first: Outcome, quick: bool) -> (Vec<u32>, u64) {
    let class = first.viol.as_ref().unwrap().class.clone();
    let mut best = first.choices.clone();
    let mut trials = 0u64;
    let start = Instant::now();
    let max_trials = if quick { 6000 } else { 30000 };
    let max_s = if quick { 45 } else { 300 };
    let slow = class == "hang" || class == "unbounded";
    let mut try_ = |cand: Vec<u32>, best: &mut Vec<u32>| -> bool {
        if trials >= max_trials || start.elapsed().as_secs() > max_s || (slow && trials > 2) {
            return false;
        }
        trials += 1;
        let o = exec(body, Source::Script(cand), false);
        let ok = o.viol.as_ref().map(|v| v.class == class).unwrap_or(false);
        if !ok {
            return false;
        }
        // the run's own record is the canonical form
        let mut c = o.choices;
        while c.last() == Some(&0) {
            c.pop();
        }
        if c.len() < best.len() || (c.len() == best.len() && c < *best) {
            *best = c;
            return true;
        }
        false
    };
    loop {
        let before = best.clone();
        // cut the tail
        let mut n = best.len() / 2;
        while n > 0 {
            if best.len() > n {
                let c = best[..best.len() - n].to_vec();
                if try_(c, &mut best) {
                    continue;
                }
            }
            n /= 2;
        }
        // delete and zero blocks
        for size in [64usize, 32, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..e);
                if try_(c, &mut best) {
                    continue;
                }
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..e] {
                        *x = 0;
                    }
                    try_(c, &mut best);
                }
                i += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for t in [v / 2, v.saturating_sub(1)] {
                if i < best.len() && t < best[i] {
                    let mut c = best.clone();
                    c[i] = t;
                    try_(c, &mut best);
                }
            }
            i += 1;
        }
        if best == before {
            break;
        }
    }
    (best, trials)
}
