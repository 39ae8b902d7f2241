//! Reference model of regular languages: complete DFAs over a small alphabet
//! of byte classes.  Deliberately boring: every operation is a plain subset /
//! product construction, followed by textbook partition refinement.  Nothing
//! here shares code or ideas (derivatives, rewriting) with the code under test.

use std::collections::HashMap;
use std::sync::Arc;

pub const INF: u32 = u32::MAX;

/// Partition of the 256 bytes into classes.
#[derive(Clone, Debug)]
pub struct Part {
    pub class_of: [u16; 256],
    pub members: Vec<Vec<u8>>,
}

impl Part {
    /// Coarsest partition refining all the given byte sets.
    pub fn from_sets(sets: &[[bool; 256]]) -> Part {
        let words = (sets.len() + 63) / 64;
        let mut ids: HashMap<Vec<u64>, u16> = HashMap::new();
        let mut class_of = [0u16; 256];
        let mut members: Vec<Vec<u8>> = vec![];
        for b in 0..256usize {
            let mut key = vec![0u64; words];
            for (i, s) in sets.iter().enumerate() {
                if s[b] {
                    key[i / 64] |= 1 << (i % 64);
                }
            }
            let n = members.len() as u16;
            let id = *ids.entry(key).or_insert(n);
            if id == n {
                members.push(vec![]);
            }
            class_of[b] = id;
            members[id as usize].push(b as u8);
        }
        Part { class_of, members }
    }
    pub fn k(&self) -> usize {
        self.members.len()
    }
    /// Representative bytes of each class: smallest, largest and one in the middle.
    pub fn reps(&self) -> Vec<u8> {
        let mut r = vec![];
        for m in &self.members {
            r.push(m[0]);
            if m.len() > 1 {
                r.push(m[m.len() - 1]);
            }
            if m.len() > 2 {
                r.push(m[m.len() / 2]);
            }
        }
        r
    }
    /// One representative per class.
    pub fn reps1(&self) -> Vec<u8> {
        self.members.iter().map(|m| m[m.len() / 2]).collect()
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Dfa {
    pub k: usize,
    /// state 0 is initial; trans[s*k + c]
    pub trans: Vec<u32>,
    pub acc: Vec<bool>,
    /// some accepting state is reachable
    pub live: Vec<bool>,
}

impl Dfa {
    pub fn n(&self) -> usize {
        self.acc.len()
    }
    #[inline(always)]
    pub fn step(&self, s: u32, c: usize) -> u32 {
        self.trans[s as usize * self.k + c]
    }
    pub fn finish(k: usize, trans: Vec<u32>, acc: Vec<bool>) -> Dfa {
        let n = acc.len();
        // backward reachability from accepting states
        let mut deg = vec![0u32; n + 1];
        for &t in &trans {
            deg[t as usize + 1] += 1;
        }
        for i in 0..n {
            deg[i + 1] += deg[i];
        }
        let mut preds = vec![0u32; trans.len()];
        let mut pos = deg.clone();
        for s in 0..n {
            for c in 0..k {
                let t = trans[s * k + c] as usize;
                preds[pos[t] as usize] = s as u32;
                pos[t] += 1;
            }
        }
        let mut live = acc.clone();
        let mut todo: Vec<usize> = (0..n).filter(|&s| acc[s]).collect();
        while let Some(t) = todo.pop() {
            for i in deg[t]..deg[t + 1] {
                let s = preds[i as usize] as usize;
                if !live[s] {
                    live[s] = true;
                    todo.push(s);
                }
            }
        }
        Dfa { k, trans, acc, live }
    }

    /// Canonical minimal automaton (states numbered in BFS order).
    pub fn minimize(&self) -> Dfa {
        let n = self.n();
        let k = self.k;
        if n > 4000 {
            return self.clone();
        }
        let mut block: Vec<u32> = self.acc.iter().map(|&a| a as u32).collect();
        let mut nblocks = {
            let a = self.acc.iter().any(|&x| x);
            let b = self.acc.iter().any(|&x| !x);
            (a as usize) + (b as usize)
        };
        let mut sig: Vec<u32> = Vec::with_capacity(k + 1);
        loop {
            let mut ids: HashMap<Vec<u32>, u32> = HashMap::with_capacity(nblocks * 2);
            let mut nb = vec![0u32; n];
            for s in 0..n {
                sig.clear();
                sig.push(block[s]);
                for c in 0..k {
                    sig.push(block[self.trans[s * k + c] as usize]);
                }
                let l = ids.len() as u32;
                nb[s] = match ids.get(&sig) {
                    Some(&x) => x,
                    None => {
                        ids.insert(sig.clone(), l);
                        l
                    }
                };
            }
            let cnt = ids.len();
            block = nb;
            if cnt == nblocks {
                break;
            }
            nblocks = cnt;
        }
        // BFS renumbering
        let mut num = vec![u32::MAX; nblocks];
        let mut repr = vec![];
        num[block[0] as usize] = 0;
        repr.push(0usize);
        let mut i = 0;
        let mut trans = vec![];
        let mut acc = vec![];
        while i < repr.len() {
            let s = repr[i];
            acc.push(self.acc[s]);
            for c in 0..k {
                let t = self.trans[s * k + c] as usize;
                let b = block[t] as usize;
                if num[b] == u32::MAX {
                    num[b] = repr.len() as u32;
                    repr.push(t);
                }
                trans.push(num[b]);
            }
            i += 1;
        }
        Dfa::finish(k, trans, acc)
    }

    pub fn run(&self, part: &Part, s: &[u8]) -> u32 {
        let mut q = 0;
        for &b in s {
            q = self.step(q, part.class_of[b as usize] as usize);
        }
        q
    }
    pub fn accepts(&self, part: &Part, s: &[u8]) -> bool {
        self.acc[self.run(part, s) as usize]
    }
    pub fn is_empty(&self) -> bool {
        !self.live[0]
    }
    /// Is L(self) a subset of L(other)?  (same alphabet)
    pub fn subset_of(&self, other: &Dfa) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut todo = vec![(0u32, 0u32)];
        seen.insert((0, 0));
        while let Some((a, b)) = todo.pop() {
            if self.acc[a as usize] && !other.acc[b as usize] {
                return false;
            }
            if !self.live[a as usize] {
                continue;
            }
            for c in 0..self.k {
                let p = (self.step(a, c), other.step(b, c));
                if seen.insert(p) {
                    todo.push(p);
                }
            }
        }
        true
    }
}

/// Generic subset construction over configuration sets.
pub fn subset<F, A>(k: usize, init: Vec<u64>, mut step: F, accept: A) -> Dfa
where
    F: FnMut(&[u64], usize, &mut Vec<u64>),
    A: Fn(&[u64]) -> bool,
{
    let mut index: HashMap<Arc<[u64]>, u32> = HashMap::new();
    let mut sets: Vec<Arc<[u64]>> = vec![];
    let mut init = init;
    init.sort_unstable();
    init.dedup();
    let i0: Arc<[u64]> = init.into();
    index.insert(i0.clone(), 0);
    sets.push(i0);
    let mut trans = vec![];
    let mut acc = vec![];
    let mut i = 0;
    let mut buf = vec![];
    while i < sets.len() {
        let cur = sets[i].clone();
        acc.push(accept(&cur));
        for c in 0..k {
            buf.clear();
            step(&cur, c, &mut buf);
            buf.sort_unstable();
            buf.dedup();
            let id = match index.get(&buf[..]) {
                Some(&x) => x,
                None => {
                    let id = sets.len() as u32;
                    let a: Arc<[u64]> = buf.clone().into();
                    index.insert(a.clone(), id);
                    sets.push(a);
                    id
                }
            };
            trans.push(id);
        }
        i += 1;
    }
    Dfa::finish(k, trans, acc)
}

pub type LangId = u32;

#[derive(Clone, PartialEq, Eq, Hash)]
enum OpKey {
    Not(LangId),
    Pre(LangId),
    Min(LangId),
    Rep(LangId, u32, u32),
    Cat(Vec<LangId>),
    Or(Vec<LangId>),
    And(Vec<LangId>),
}

/// Table of canonical languages over one fixed alphabet with memoised operations.
#[derive(Clone)]
pub struct Langs {
    pub k: usize,
    pub dfas: Vec<Arc<Dfa>>,
    index: HashMap<Arc<Dfa>, LangId>,
    memo: HashMap<OpKey, LangId>,
}

#[inline(always)]
fn pack(i: usize, q: u32) -> u64 {
    ((i as u64) << 32) | q as u64
}
#[inline(always)]
fn unpack(x: u64) -> (usize, u32) {
    ((x >> 32) as usize, x as u32)
}

impl Langs {
    pub fn new(k: usize) -> Langs {
        Langs { k, dfas: vec![], index: HashMap::new(), memo: HashMap::new() }
    }
    pub fn get(&self, l: LangId) -> &Arc<Dfa> {
        &self.dfas[l as usize]
    }
    pub fn add(&mut self, d: Dfa) -> LangId {
        let d = Arc::new(d.minimize());
        if let Some(&x) = self.index.get(&d) {
            return x;
        }
        let id = self.dfas.len() as LangId;
        self.dfas.push(d.clone());
        self.index.insert(d, id);
        id
    }
    pub fn none(&mut self) -> LangId {
        let k = self.k;
        self.add(Dfa::finish(k, vec![0; k], vec![false]))
    }
    pub fn eps(&mut self) -> LangId {
        let k = self.k;
        self.add(Dfa::finish(k, vec![1; 2 * k], vec![true, false]))
    }
    /// one symbol whose class is marked
    pub fn set(&mut self, cls: &[bool]) -> LangId {
        let k = self.k;
        let mut t = vec![2u32; 3 * k];
        for c in 0..k {
            if cls[c] {
                t[c] = 1;
            }
        }
        self.add(Dfa::finish(k, t, vec![false, true, false]))
    }
    pub fn lit(&mut self, cls: &[usize]) -> LangId {
        let k = self.k;
        let n = cls.len();
        let sink = n as u32 + 1;
        let mut t = vec![sink; (n + 2) * k];
        for (i, &c) in cls.iter().enumerate() {
            t[i * k + c] = i as u32 + 1;
        }
        let mut acc = vec![false; n + 2];
        acc[n] = true;
        self.add(Dfa::finish(k, t, acc))
    }
    fn memo(&mut self, key: OpKey, f: impl FnOnce(&mut Langs) -> Dfa) -> LangId {
        if let Some(&x) = self.memo.get(&key) {
            return x;
        }
        let d = f(self);
        let id = self.add(d);
        self.memo.insert(key, id);
        id
    }
    pub fn not(&mut self, l: LangId) -> LangId {
        self.memo(OpKey::Not(l), |s| {
            let d = s.get(l).clone();
            Dfa::finish(d.k, d.trans.clone(), d.acc.iter().map(|a| !a).collect())
        })
    }
    pub fn prefixes(&mut self, l: LangId) -> LangId {
        self.memo(OpKey::Pre(l), |s| {
            let d = s.get(l).clone();
            Dfa::finish(d.k, d.trans.clone(), d.live.clone())
        })
    }
    /// words of l that have no proper prefix in l
    pub fn minwords(&mut self, l: LangId) -> LangId {
        self.memo(OpKey::Min(l), |s| {
            let d = s.get(l).clone();
            let n = d.n();
            let k = d.k;
            let mut trans = d.trans.clone();
            for q in 0..n {
                if d.acc[q] {
                    for c in 0..k {
                        trans[q * k + c] = n as u32;
                    }
                }
            }
            trans.extend(std::iter::repeat(n as u32).take(k));
            let mut acc = d.acc.clone();
            acc.push(false);
            Dfa::finish(k, trans, acc)
        })
    }
    pub fn or(&mut self, ls: &[LangId]) -> LangId {
        let mut v = ls.to_vec();
        v.sort_unstable();
        v.dedup();
        if v.is_empty() {
            return self.none();
        }
        if v.len() == 1 {
            return v[0];
        }
        self.memo(OpKey::Or(v.clone()), |s| {
            let ds: Vec<Arc<Dfa>> = v.iter().map(|&l| s.get(l).clone()).collect();
            let mut init = vec![];
            for (i, d) in ds.iter().enumerate() {
                if d.live[0] {
                    init.push(pack(i, 0));
                }
            }
            subset(
                s.k,
                init,
                |cur, c, out| {
                    for &x in cur {
                        let (i, q) = unpack(x);
                        let t = ds[i].step(q, c);
                        if ds[i].live[t as usize] {
                            out.push(pack(i, t));
                        }
                    }
                },
                |cur| {
                    cur.iter().any(|&x| {
                        let (i, q) = unpack(x);
                        ds[i].acc[q as usize]
                    })
                },
            )
        })
    }
    pub fn and(&mut self, ls: &[LangId]) -> LangId {
        let mut v = ls.to_vec();
        v.sort_unstable();
        v.dedup();
        if v.is_empty() {
            let n = self.none();
            return self.not(n);
        }
        if v.len() == 1 {
            return v[0];
        }
        self.memo(OpKey::And(v.clone()), |s| {
            let ds: Vec<Arc<Dfa>> = v.iter().map(|&l| s.get(l).clone()).collect();
            let m = ds.len();
            let mut init = vec![];
            if ds.iter().all(|d| d.live[0]) {
                for i in 0..m {
                    init.push(pack(i, 0));
                }
            }
            subset(
                s.k,
                init,
                |cur, c, out| {
                    for &x in cur {
                        let (i, q) = unpack(x);
                        let t = ds[i].step(q, c);
                        if !ds[i].live[t as usize] {
                            out.clear();
                            return;
                        }
                        out.push(pack(i, t));
                    }
                },
                |cur| {
                    cur.len() == m
                        && cur.iter().all(|&x| {
                            let (i, q) = unpack(x);
                            ds[i].acc[q as usize]
                        })
                },
            )
        })
    }
    pub fn cat(&mut self, ls: &[LangId]) -> LangId {
        if ls.is_empty() {
            return self.eps();
        }
        if ls.len() == 1 {
            return ls[0];
        }
        let v = ls.to_vec();
        self.memo(OpKey::Cat(v.clone()), |s| {
            let ds: Vec<Arc<Dfa>> = v.iter().map(|&l| s.get(l).clone()).collect();
            let m = ds.len();
            // add (i, q) and, if part i can be finished here, the starts of the following parts
            fn add(ds: &[Arc<Dfa>], i: usize, q: u32, out: &mut Vec<u64>) {
                let (mut i, mut q) = (i, q);
                loop {
                    if !ds[i].live[q as usize] {
                        return;
                    }
                    out.push(pack(i, q));
                    if ds[i].acc[q as usize] && i + 1 < ds.len() {
                        i += 1;
                        q = 0;
                    } else {
                        return;
                    }
                }
            }
            let mut init = vec![];
            add(&ds, 0, 0, &mut init);
            subset(
                s.k,
                init,
                |cur, c, out| {
                    for &x in cur {
                        let (i, q) = unpack(x);
                        add(&ds, i, ds[i].step(q, c), out);
                    }
                },
                |cur| {
                    cur.iter().any(|&x| {
                        let (i, q) = unpack(x);
                        i == m - 1 && ds[i].acc[q as usize]
                    })
                },
            )
        })
    }
    /// l repeated at least min and at most max times (INF = unbounded); min > max is empty.
    pub fn rep(&mut self, l: LangId, min: u32, max: u32) -> LangId {
        if min > max {
            return self.none();
        }
        if max == 0 {
            return self.eps();
        }
        self.memo(OpKey::Rep(l, min, max), |s| {
            let d = s.get(l).clone();
            let nullable = d.acc[0];
            let min = if nullable { 0 } else { min };
            // configuration: (c, q): c copies completed (saturating at min when unbounded),
            // currently in state q of the next copy.
            let sat = |c: u32| if max == INF { c.min(min) } else { c };
            let can_start = |c: u32| max == INF || c < max;
            fn add(
                d: &Dfa,
                c: u32,
                q: u32,
                sat: &dyn Fn(u32) -> u32,
                can_start: &dyn Fn(u32) -> bool,
                out: &mut Vec<u64>,
            ) {
                let (mut c, mut q) = (c, q);
                let mut first = true;
                loop {
                    if !d.live[q as usize] {
                        return;
                    }
                    let x = pack(c as usize, q);
                    if !first && out.contains(&x) {
                        return;
                    }
                    out.push(x);
                    if !d.acc[q as usize] {
                        return;
                    }
                    let c2 = sat(c + 1);
                    if !can_start(c2) || (c2 == c && q == 0) {
                        return;
                    }
                    c = c2;
                    q = 0;
                    first = false;
                }
            }
            let mut init = vec![];
            if can_start(0) {
                add(&d, 0, 0, &sat, &can_start, &mut init);
            }
            // mark "nothing read yet" to accept epsilon when min == 0
            const START: u64 = u64::MAX;
            if min == 0 {
                init.push(START);
            }
            subset(
                s.k,
                init,
                |cur, cc, out| {
                    for &x in cur {
                        if x == START {
                            continue;
                        }
                        let (c, q) = unpack(x);
                        add(&d, c as u32, d.step(q, cc), &sat, &can_start, out);
                    }
                },
                |cur| {
                    cur.iter().any(|&x| {
                        if x == START {
                            return true;
                        }
                        let (c, q) = unpack(x);
                        d.acc[q as usize] && c as u32 + 1 >= min
                    })
                },
            )
        })
    }
}
