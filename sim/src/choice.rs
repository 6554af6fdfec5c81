//! The recorded choice sequence.  Every decision of a run is one draw; 0 is always the simplest
//! alternative.  A run is a pure function of the sequence.

/// Where the recorded choices live: shared memory, so that they survive a crash of the run.
pub struct Choices {
    rec: *mut u32,
    len: *mut u32,
    cap: usize,
    script: Option<Vec<u32>>,
    rng: u64,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Choices {
    pub fn new(rec: *mut u32, len: *mut u32, cap: usize, seed: u64, script: Option<Vec<u32>>) -> Choices {
        unsafe { *len = 0 };
        Choices { rec, len, cap, script, rng: mix(seed) }
    }
    pub fn count(&self) -> usize {
        unsafe { *self.len as usize }
    }
    pub fn rng_state(&self) -> u64 {
        self.rng
    }
    pub fn set_rng_state(&mut self, s: u64) {
        self.rng = s
    }
    fn next(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.rng)
    }
    /// draw: `f` maps a random word to the recorded value, which is below `bound`
    pub fn draw<F: FnOnce(u64) -> u32>(&mut self, bound: u32, f: F) -> u32 {
        let pos = self.count();
        let v = match self.script {
            Some(ref s) => s.get(pos).cloned().unwrap_or(0).min(bound.saturating_sub(1)),
            None => {
                let w = self.next();
                f(w)
            }
        };
        if pos >= self.cap {
            return 0;
        }
        unsafe {
            *self.rec.add(pos) = v;
            *self.len = pos as u32 + 1;
        }
        v
    }
}

fn ch() -> &'static mut Choices {
    &mut crate::kernel::k().ch
}

/// uniform in 0..n
pub fn below(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    ch().draw(n, |w| ((w >> 32) * n as u64 >> 32) as u32)
}

/// true with probability num/den
pub fn chance(num: u32, den: u32) -> bool {
    ch().draw(2, |w| (((w >> 32) * den as u64 >> 32) < num as u64) as u32) == 1
}

/// an index with the given weights
pub fn weighted(ws: &[u32]) -> usize {
    let total: u64 = ws.iter().map(|x| *x as u64).sum();
    ch().draw(ws.len() as u32, |w| {
        let mut x = (w >> 32) * total >> 32;
        for (i, v) in ws.iter().enumerate() {
            if x < *v as u64 {
                return i as u32;
            }
            x -= *v as u64;
        }
        0
    }) as usize
}

/// lo..=hi
pub fn int(lo: i64, hi: i64) -> i64 {
    lo + below((hi - lo + 1) as u32) as i64
}

/// a small number: 0 most of the time, up to max
pub fn small(max: u32) -> u32 {
    if max == 0 {
        return 0;
    }
    ch().draw(max + 1, |w| {
        let r = (w >> 32) as u32;
        let lim = match w & 7 {
            0 => max,
            1 | 2 => max / 2 + 1,
            _ => (max / 4 + 1).min(3),
        };
        (r % (lim + 1)).min(max)
    })
}

pub fn pick<'a, T>(v: &'a [T]) -> &'a T {
    &v[below(v.len() as u32) as usize]
}
