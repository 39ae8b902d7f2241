//! Reference for UTF-8: the automaton of the encodings of a set of scalar values, built
//! directly from the bit layout of the encoding (no range splitting algorithm).

use crate::lang::{Dfa, Part};
use crate::term::BSet;
use std::collections::HashMap;

pub type Ranges = Vec<(u32, u32)>;

pub fn is_scalar(c: u32) -> bool {
    c < 0xD800 || (0xE000..0x110000).contains(&c)
}

/// sort, merge, clip to scalar values
pub fn norm(r: &[(u32, u32)]) -> Ranges {
    let mut v: Ranges = vec![];
    let mut s: Ranges = r.to_vec();
    s.sort_unstable();
    for (a, b) in s {
        for (a, b) in [(a, b.min(0xD7FF)), (a.max(0xE000), b.min(0x10FFFF))] {
            if a > b {
                continue;
            }
            match v.last_mut() {
                Some(l) if a <= l.1 + 1 => {
                    l.1 = l.1.max(b)
                }
                _ => v.push((a, b)),
            }
        }
    }
    v.sort_unstable();
    let mut w: Ranges = vec![];
    for (a, b) in v {
        match w.last_mut() {
            Some(l) if a <= l.1 + 1 => l.1 = l.1.max(b),
            _ => w.push((a, b)),
        }
    }
    w
}

pub fn complement(r: &[(u32, u32)]) -> Ranges {
    let r = norm(r);
    let mut v = vec![];
    let mut next = 0u32;
    for (a, b) in r {
        if a > next {
            v.push((next, a - 1));
        }
        next = b + 1;
    }
    if next <= 0x10FFFF {
        v.push((next, 0x10FFFF));
    }
    norm(&v)
}

pub fn contains(r: &[(u32, u32)], c: u32) -> bool {
    r.binary_search_by(|&(a, b)| {
        if b < c {
            std::cmp::Ordering::Less
        } else if a > c {
            std::cmp::Ordering::Greater
        } else {
            std::cmp::Ordering::Equal
        }
    })
    .is_ok()
}

/// 256-column automaton; state 0 initial, 1 = accept, 2 = sink
pub struct ByteDfa {
    pub rows: Vec<[u32; 256]>,
}

pub fn byte_dfa(ranges: &[(u32, u32)]) -> ByteDfa {
    let r = norm(ranges);
    let mut rows = vec![[2u32; 256]; 3];
    let mut memo: HashMap<Vec<u32>, u32> = HashMap::new();
    // node for the block of scalars [base, base + 64^n) with n continuation bytes to come
    fn node(
        r: &Ranges,
        base: u32,
        n: u32,
        min: u32,
        rows: &mut Vec<[u32; 256]>,
        memo: &mut HashMap<Vec<u32>, u32>,
    ) -> u32 {
        // min: smallest value for which this length is the shortest encoding
        if n == 0 {
            return if base >= min && base < 0x110000 && contains(r, base) { 1 } else { 2 };
        }
        let size = 1u64 << (6 * n);
        let end = base as u64 + size - 1;
        // quick answer for an empty block
        let any = r.iter().any(|&(a, b)| (b as u64) >= base as u64 && (a as u64) <= end);
        if !any {
            return 2;
        }
        // a completely covered block: all continuations, whatever the base
        let full = base >= min
            && end < 0x110000
            && r.iter().any(|&(a, b)| a <= base && b as u64 >= end);
        let step = (size / 64) as u32;
        if full {
            let mut k = 1;
            for _ in 0..n {
                let kids = vec![k; 64];
                k = match memo.get(&kids) {
                    Some(&x) => x,
                    None => {
                        let mut row = [2u32; 256];
                        for i in 0..64 {
                            row[0x80 + i] = k;
                        }
                        rows.push(row);
                        let id = rows.len() as u32 - 1;
                        memo.insert(kids, id);
                        id
                    }
                };
            }
            return k;
        }
        let kids: Vec<u32> =
            (0..64u32).map(|i| node(r, base + i * step, n - 1, min, rows, memo)).collect();
        if kids.iter().all(|&k| k == 2) {
            return 2;
        }
        if let Some(&x) = memo.get(&kids) {
            return x;
        }
        let mut row = [2u32; 256];
        for i in 0..64 {
            row[0x80 + i] = kids[i];
        }
        rows.push(row);
        let id = rows.len() as u32 - 1;
        memo.insert(kids, id);
        id
    }
    let mut row0 = [2u32; 256];
    for b in 0..0x80u32 {
        if contains(&r, b) {
            row0[b as usize] = 1;
        }
    }
    for b in 0xC0..0x100u32 {
        let (n, bits, min) = if b < 0xE0 {
            (1, b & 0x1F, 0x80)
        } else if b < 0xF0 {
            (2, b & 0x0F, 0x800)
        } else if b < 0xF8 {
            (3, b & 0x07, 0x10000)
        } else {
            continue;
        };
        row0[b as usize] = node(&r, bits << (6 * n), n, min, &mut rows, &mut memo);
    }
    rows[0] = row0;
    ByteDfa { rows }
}

impl ByteDfa {
    /// groups of bytes with identical columns
    pub fn column_sets(&self) -> Vec<BSet> {
        let mut ids: HashMap<Vec<u32>, usize> = HashMap::new();
        let mut out: Vec<BSet> = vec![];
        for b in 0..256 {
            let col: Vec<u32> = self.rows.iter().map(|r| r[b]).collect();
            let n = out.len();
            let i = *ids.entry(col).or_insert(n);
            if i == n {
                out.push([false; 256]);
            }
            out[i][b] = true;
        }
        out
    }
    pub fn dfa(&self, p: &Part) -> Dfa {
        let k = p.k();
        let mut t = Vec::with_capacity(self.rows.len() * k);
        for r in &self.rows {
            for m in &p.members {
                debug_assert!(m.iter().all(|&b| r[b as usize] == r[m[0] as usize]));
                t.push(r[m[0] as usize]);
            }
        }
        let mut acc = vec![false; self.rows.len()];
        acc[1] = true;
        Dfa::finish(k, t, acc)
    }
    pub fn accepts(&self, s: &[u8]) -> bool {
        let mut q = 0u32;
        for &b in s {
            q = self.rows[q as usize][b as usize];
        }
        q == 1
    }
}

/// Validate the construction against the standard library over all scalar values, and
/// against from_utf8 over every byte string that differs from an encoding in one byte
/// (all strings up to length 3 for the full set).
pub fn validate() -> Result<u64, String> {
    let mut n = 0;
    let sets: Vec<Ranges> = vec![
        vec![(0, 0x10FFFF)],
        vec![(0x41, 0x5A), (0x3B1, 0x3C9), (0xFFFF, 0x10000)],
        vec![(0x7F, 0x80), (0x7FF, 0x800), (0xD7FF, 0xE000), (0x10FFFF, 0x10FFFF)],
        complement(&[(0x61, 0x61)]),
        vec![(0x1234, 0x5678)],
    ];
    for s in &sets {
        let d = byte_dfa(s);
        let s = norm(s);
        for c in 0..0x110000u32 {
            if let Some(ch) = char::from_u32(c) {
                let mut buf = [0u8; 4];
                let e = ch.encode_utf8(&mut buf).as_bytes();
                n += 1;
                if d.accepts(e) != contains(&s, c) {
                    return Err(format!("utf8 reference wrong at {c:#x}"));
                }
            }
        }
    }
    // nothing but encodings: count accepted words by length
    let d = byte_dfa(&[(0, 0x10FFFF)]);
    let mut paths = vec![0u64; d.rows.len()];
    paths[0] = 1;
    let mut total = 0u64;
    for _ in 0..6 {
        let mut np = vec![0u64; d.rows.len()];
        for (q, &c) in paths.iter().enumerate() {
            if c > 0 && q != 2 {
                for b in 0..256 {
                    np[d.rows[q][b] as usize] += c;
                }
            }
        }
        total += np[1];
        np[2] = 0;
        paths = np;
    }
    if total != 0x110000 - 0x800 {
        return Err(format!("utf8 reference accepts {total} words"));
    }
    Ok(n)
}
