pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push('…');
        t
    }
}

/// where two texts differ, shortly
pub fn diff(a: &str, b: &str) -> String {
    let i = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| -> String { s.chars().skip(i.saturating_sub(60)).take(140).collect() };
    format!("at {}: expected …{:?}… got …{:?}…", i, cut(a), cut(b))
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
