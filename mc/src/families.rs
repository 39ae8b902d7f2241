//! Enumerated families of expressions used by the language-level checks.

use crate::lang::{Langs, Part, INF};
use crate::run::{Fam, Tier};
use crate::term::*;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone)]
pub struct LCase {
    pub term: Term,
    pub part: Option<Arc<Part>>,
}

impl LCase {
    pub fn of(term: Term) -> LCase {
        LCase { term, part: None }
    }
}

/// Per-thread reference tables, one per byte partition.
pub struct Refs {
    tables: HashMap<Vec<u16>, Langs>,
}
impl Refs {
    pub fn new() -> Refs {
        Refs { tables: HashMap::new() }
    }
    pub fn langs(&mut self, p: &Part) -> &mut Langs {
        if self.tables.len() > 64 {
            self.tables.clear();
        }
        let t = self
            .tables
            .entry(p.class_of.to_vec())
            .or_insert_with(|| Langs::new(p.k()));
        if t.dfas.len() > 300_000 {
            *t = Langs::new(p.k());
        }
        t
    }
}

pub fn ab_part() -> Part {
    Part::from_sets(&[bset(|b| b == b'a'), bset(|b| b == b'b')])
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Bin {
    Cat,
    Or,
    And,
}
pub fn bin(op: Bin, v: Vec<Term>) -> Term {
    match op {
        Bin::Cat => Term::Cat(v),
        Bin::Or => Term::Or(v),
        Bin::And => Term::And(v),
    }
}
pub const BINS: [Bin; 3] = [Bin::Cat, Bin::Or, Bin::And];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Un {
    Not,
    Pre,
    Rep(u32, u32),
}
pub fn un(op: Un, t: Term) -> Term {
    match op {
        Un::Not => not(t),
        Un::Pre => pre(t),
        Un::Rep(a, b) => rep(t, a, b),
    }
}

/// All terms up to a size, by size, over given leaves and unary operators.
#[derive(Clone)]
pub struct Pool {
    pub leaves: Vec<Term>,
    pub uns: Vec<Un>,
    pub bins: Vec<Bin>,
    pub by_size: Vec<Vec<Term>>, // by_size[n], n >= 1
}

impl Pool {
    pub fn new(leaves: Vec<Term>, uns: Vec<Un>, bins: Vec<Bin>, max: usize) -> Pool {
        let mut p = Pool { leaves: leaves.clone(), uns, bins, by_size: vec![vec![], leaves] };
        for n in 2..=max {
            let c = p.count(n);
            let v = (0..c).map(|i| p.get(n, i)).collect();
            p.by_size.push(v);
        }
        p
    }
    /// number of terms of size n, given that all smaller sizes are materialised
    pub fn count(&self, n: usize) -> u64 {
        if n == 1 {
            return self.leaves.len() as u64;
        }
        let mut c = (self.uns.len() * self.by_size[n - 1].len()) as u64;
        for i in 1..n - 1 {
            c += (self.bins.len() * self.by_size[i].len() * self.by_size[n - 1 - i].len()) as u64;
        }
        c
    }
    pub fn get(&self, n: usize, mut i: u64) -> Term {
        if n == 1 {
            return self.leaves[i as usize].clone();
        }
        let l = self.by_size[n - 1].len() as u64;
        let u = self.uns.len() as u64 * l;
        if i < u {
            return un(self.uns[(i / l) as usize], self.by_size[n - 1][(i % l) as usize].clone());
        }
        i -= u;
        for k in 1..n - 1 {
            let (x, y) = (self.by_size[k].len() as u64, self.by_size[n - 1 - k].len() as u64);
            let c = self.bins.len() as u64 * x * y;
            if i < c {
                let op = self.bins[(i / (x * y)) as usize];
                let r = i % (x * y);
                return bin(
                    op,
                    vec![
                        self.by_size[k][(r / y) as usize].clone(),
                        self.by_size[n - 1 - k][(r % y) as usize].clone(),
                    ],
                );
            }
            i -= c;
        }
        panic!("index out of range")
    }
    pub fn all(&self) -> Vec<Term> {
        self.by_size.iter().flatten().cloned().collect()
    }
    pub fn family(
        self: Arc<Self>,
        name: &str,
        n: usize,
        part: Arc<Part>,
        filter: impl Fn(&Term) -> bool + Sync + Send + 'static,
    ) -> Fam<LCase> {
        let c = self.count(n);
        Fam::new(name, &format!("every term of size {n}"), c, move |i| {
            let term = self.get(n, i);
            if !filter(&term) {
                return None;
            }
            Some(LCase { term, part: Some(part.clone()) })
        })
    }
}

pub fn byte(b: u8) -> Term {
    Term::Byte(b)
}

pub fn leaves_full() -> Vec<Term> {
    vec![
        byte(b'a'),
        byte(b'b'),
        set(|b| b == b'a' || b == b'b'),
        set(|b| b != b'a'),
        any(),
        Term::Eps,
        Term::None,
    ]
}
pub fn leaves_core() -> Vec<Term> {
    vec![byte(b'a'), byte(b'b'), set(|b| b != b'a'), any(), Term::Eps]
}
pub fn uns_full() -> Vec<Un> {
    vec![
        Un::Not,
        Un::Pre,
        Un::Rep(0, INF),
        Un::Rep(1, INF),
        Un::Rep(0, 1),
        Un::Rep(0, 2),
        Un::Rep(2, 2),
        Un::Rep(1, 2),
        Un::Rep(2, INF),
        Un::Rep(2, 3),
        Un::Rep(0, 0),
    ]
}
pub fn uns_core() -> Vec<Un> {
    vec![Un::Not, Un::Pre, Un::Rep(0, INF), Un::Rep(0, 1), Un::Rep(1, 2), Un::Rep(2, INF)]
}

/// terms of exactly the sizes lo..=hi over the full / core grammar
pub fn term_families(full_max: usize, core_max: usize) -> Vec<Fam<LCase>> {
    let part = Arc::new(ab_part());
    let mut r = vec![];
    let pool = Arc::new(Pool::new(leaves_full(), uns_full(), BINS.to_vec(), full_max - 1));
    for n in 1..=full_max {
        r.push(pool.clone().family(&format!("terms-full-{n}"), n, part.clone(), |_| true));
    }
    if core_max > full_max {
        let pool = Arc::new(Pool::new(leaves_core(), uns_core(), BINS.to_vec(), core_max - 1));
        for n in full_max + 1..=core_max {
            r.push(pool.clone().family(&format!("terms-core-{n}"), n, part.clone(), |_| true));
        }
    }
    r
}

/// n-ary operator applied to every tuple over a pool
pub fn tuples(name: &str, pool: Vec<Term>, arity: u32, bins: &[Bin], part: Arc<Part>) -> Fam<LCase> {
    let n = pool.len() as u64;
    let per = n.pow(arity);
    let bins = bins.to_vec();
    Fam::new(
        name,
        &format!("every {arity}-tuple over {n} operands under each n-ary operator"),
        per * bins.len() as u64,
        move |i| {
            let op = bins[(i / per) as usize];
            let mut r = i % per;
            let mut v = vec![];
            for _ in 0..arity {
                v.push(pool[(r % n) as usize].clone());
                r /= n;
            }
            Some(LCase { term: bin(op, v), part: Some(part.clone()) })
        },
    )
}

/// unions of concatenations sharing heads/tails (prefix factoring), non-literal parts included
pub fn shared_heads(tier: Tier) -> Fam<LCase> {
    let atoms = [
        byte(b'a'),
        byte(b'b'),
        star(byte(b'a')),
        not(byte(b'a')),
        rep(byte(b'b'), 0, 1),
    ];
    let mut seqs: Vec<Term> = vec![Term::Eps];
    for x in &atoms {
        seqs.push(x.clone());
        for y in &atoms {
            seqs.push(Term::Cat(vec![x.clone(), y.clone()]));
        }
    }
    if tier == Tier::Thorough {
        for x in &atoms[..3] {
            for y in &atoms[..4] {
                for z in &atoms[..2] {
                    seqs.push(Term::Cat(vec![x.clone(), y.clone(), z.clone()]));
                }
            }
        }
    }
    tuples("shared-heads", seqs, 3, &[Bin::Or], Arc::new(ab_part()))
}

/// Distinguish n symbols in several ways; sweeps the number of distinct bytes / sets.
pub fn alphabet_sweep(tier: Tier) -> Fam<LCase> {
    let mut v = vec![];
    for n in 1..=256usize {
        let bytes: Vec<u8> = (0..n).map(|i| (i * 167 % 256) as u8).collect(); // 167 odd: a permutation
        // one literal using n distinct bytes
        v.push(LCase::of(Term::Lit(bytes.clone())));
        // union of byte . marker
        let dense = n <= 12 || n % 8 <= 1 || n % 32 >= 29 || n >= 250 || tier == Tier::Thorough;
        if !dense {
            continue;
        }
        let alts: Vec<Term> = (0..n)
            .map(|i| Term::Cat(vec![byte(i as u8), byte(((i + 1) % n) as u8)]))
            .collect();
        v.push(LCase::of(Term::Or(alts.clone())));
        // complement: everything except these (phantom symbols must not appear)
        v.push(LCase::of(not(Term::Or(alts.clone()))));
        // a complement whose language is empty, over an alphabet of about n symbols
        let l = Term::Cat(vec![not(byte(0)), byte(1)]);
        let full = Term::Cat(vec![any(), star(any())]);
        v.push(LCase::of(not(Term::Or(vec![l, Term::Eps, full, Term::Lit(bytes.clone())]))));
        // nested sets {0..=i}: n byte sets
        let cum: Vec<Term> = (0..n).map(|i| range(0, i as u8)).collect();
        if n <= 140 {
            v.push(LCase::of(Term::Cat(cum.clone())));
        }
        // intersections of ranges, singleton overlaps
        let half = (n / 2) as u8;
        v.push(LCase::of(Term::And(vec![
            star(range(0, half)),
            Term::Cat(vec![range(half, (n - 1) as u8), star(any())]),
        ])));
        // first/last byte of an n-byte window are special
        v.push(LCase::of(Term::Or(vec![
            Term::Cat(vec![range(0, (n - 1) as u8), byte(0)]),
            Term::Cat(vec![byte((n - 1) as u8), byte(1)]),
        ])));
    }
    // many distinct byte sets (crossing the 64-set boundary), each followed by its own marker
    for n in [1usize, 2, 31, 32, 33, 62, 63, 64, 65, 66, 67, 95, 96, 97, 127, 128, 129, 130] {
        let mut alts = vec![];
        for i in 0..n {
            // distinct two-element sets inside 0..200, marker 200..
            let (x, y) = ((i % 100) as u8, (100 + (i * 7 + i / 100) % 100) as u8);
            alts.push(Term::Cat(vec![
                set(move |b| b == x || b == y),
                range(200 + (i % 50) as u8, 255),
            ]));
        }
        v.push(LCase::of(Term::Or(alts.clone())));
        v.push(LCase::of(not(Term::Or(alts))));
        // only the last set separates two bytes
        let mut alts = vec![];
        for i in 0..n {
            let lo = 4 + i as u8;
            let last = i + 1 == n;
            alts.push(Term::Cat(vec![
                set(move |b| (b >= lo && b < lo + 90) || (last && b == 1) || (!last && b <= 2)),
                byte(b'z'),
            ]));
        }
        v.push(LCase::of(Term::Cat(vec![Term::Or(alts), byte(b'q')])));
    }
    Fam::list("alphabet-sweep", "1..256 distinct symbols, 1..130 byte sets", v)
}

/// every single byte and many byte ranges as leaves
pub fn byte_sweep(tier: Tier) -> Fam<LCase> {
    let mut v = vec![];
    for b in 0..=255u8 {
        v.push(LCase::of(byte(b)));
        v.push(LCase::of(not(byte(b))));
        v.push(LCase::of(Term::Cat(vec![byte(b), range(b, 255)])));
        v.push(LCase::of(star(Term::Or(vec![byte(b), Term::Lit(vec![b.wrapping_add(1), b])]))));
        v.push(LCase::of(Term::Or(vec![
            Term::Lit(vec![b, b'x']),
            Term::Lit(vec![b ^ 0x20, b'y']),
            Term::Lit(vec![b ^ 0x80, b'x']),
        ])));
    }
    let step = tier.pick(17, 1);
    let mut i = 0;
    for lo in 0..=255u32 {
        for hi in lo..=255u32 {
            i += 1;
            if i % step == 0 || lo == 0 || hi == 255 || hi == lo + 1 {
                v.push(LCase::of(Term::Or(vec![
                    Term::Cat(vec![range(lo as u8, hi as u8), byte(b'a')]),
                    Term::Lit(vec![lo as u8, b'b']),
                ])));
            }
        }
    }
    Fam::list("byte-sweep", "every byte value, byte ranges", v)
}

/// repetition bounds
pub fn repeat_sweep(tier: Tier) -> Fam<LCase> {
    let a = || byte(b'a');
    let b = || byte(b'b');
    let inner: Vec<Term> = vec![
        a(),
        Term::Or(vec![a(), b()]),
        Term::Lit(b"ab".to_vec()),
        rep(a(), 0, 1),
        Term::Or(vec![a(), Term::Lit(b"aa".to_vec())]),
        star(Term::Lit(b"ab".to_vec())),
        Term::And(vec![not(b()), Term::Or(vec![a(), Term::Lit(b"bb".to_vec())])]),
        not(Term::Eps),
        rep(a(), 2, 3),
    ];
    let n = tier.pick(6, 12);
    let mut v = vec![];
    for e in &inner {
        for lo in 0..=n {
            for hi in (lo..=n).chain([INF]) {
                let r = rep(e.clone(), lo, hi);
                v.push(LCase::of(r.clone()));
                v.push(LCase::of(Term::Cat(vec![r.clone(), b()])));
                v.push(LCase::of(Term::Cat(vec![r.clone(), r.clone()])));
                v.push(LCase::of(not(r.clone())));
                v.push(LCase::of(Term::And(vec![r.clone(), not(rep(e.clone(), lo + 1, INF))])));
                v.push(LCase::of(Term::Or(vec![r.clone(), rep(a(), 0, 2)])));
                v.push(LCase::of(pre(Term::Cat(vec![r.clone(), a()]))));
                v.push(LCase::of(rep(r, 0, 2)));
            }
        }
    }
    // larger bounds on a simple body: every value that could sit at a representation limit
    for m in [15u32, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000] {
        for e in [a(), Term::Or(vec![a(), b()]), Term::Lit(b"ab".to_vec())] {
            for (lo, hi) in [(m, m), (0, m), (m, INF), (m - 1, m), (1, m), (m, m + 1)] {
                v.push(LCase::of(rep(e.clone(), lo, hi)));
                v.push(LCase::of(Term::Cat(vec![rep(e.clone(), lo, hi), b()])));
            }
            v.push(LCase::of(Term::And(vec![
                rep(e.clone(), 0, m),
                not(rep(e.clone(), 0, m - 1)),
            ])));
        }
    }
    Fam::list("repeat-sweep", "all bounds up to a limit, both finite and infinite, several bodies and contexts", v)
}

/// operand counts and lengths
pub fn width_sweep(tier: Tier) -> Fam<LCase> {
    let mut v = vec![];
    let maxw = tier.pick(140usize, 300);
    for n in 1..=maxw {
        let dense = n <= 20 || n % 32 <= 1 || (99..=104).contains(&n) || n % 16 == 15 || tier == Tier::Thorough;
        if !dense {
            continue;
        }
        // two-letter words, distinct
        let word = |i: usize| {
            let mut w = vec![];
            for k in 0..9 {
                w.push(if i >> k & 1 == 1 { b'b' } else { b'a' });
            }
            w
        };
        v.push(LCase::of(Term::Or((0..n).map(|i| Term::Lit(word(i))).collect())));
        // words that are prefixes of one another: depth n
        v.push(LCase::of(Term::Or((1..=n).map(|i| Term::Lit(vec![b'a'; i])).collect())));
        // chain with branches at each depth
        v.push(LCase::of(Term::Or(
            (0..n)
                .map(|i| {
                    let mut w = vec![b'a'; i];
                    w.push(b'b');
                    Term::Lit(w)
                })
                .collect(),
        )));
        // reverse order and with non-literal tails
        v.push(LCase::of(Term::Or(
            (0..n)
                .rev()
                .map(|i| Term::Cat(vec![Term::Lit(vec![b'a'; i]), star(byte(b'b'))]))
                .collect(),
        )));
        // intersection of n complements
        v.push(LCase::of(Term::And((0..n).map(|i| not(Term::Lit(word(i * 3)))).collect())));
        v.push(LCase::of(Term::And((0..n).map(|i| not(Term::Lit(vec![b'a'; i]))).collect())));
        // long literal / concatenation of optional parts
        v.push(LCase::of(Term::Lit((0..n).map(|i| if i % 3 == 0 { b'b' } else { b'a' }).collect())));
        if n <= 70 {
            v.push(LCase::of(Term::Cat((0..n).map(|_| rep(byte(b'a'), 0, 1)).collect())));
        }
        // tower of stars / complements
        if n <= 60 {
            let mut t = byte(b'a');
            for i in 0..n {
                t = match i % 3 {
                    0 => rep(Term::Cat(vec![t, byte(b'b')]), 0, 1),
                    1 => Term::Or(vec![t, Term::Lit(b"ab".to_vec())]),
                    _ => Term::Cat(vec![byte(b'a'), t]),
                };
            }
            v.push(LCase::of(t.clone()));
            v.push(LCase::of(not(t.clone())));
            v.push(LCase::of(pre(t)));
        }
    }
    Fam::list("width-sweep", "operand counts, word lengths, nesting", v)
}

/// Operand lists far longer than anybody writes by hand, uniform except for one operand of a
/// different kind, which stands first, in the middle and last.  Whatever is computed by walking
/// over the operands (nullability, the set of live bytes, the next forced byte, the hash of the
/// node) has to look at all of them.
pub fn wide_lists(tier: Tier) -> Fam<LCase> {
    let specials = || {
        vec![
            byte(b'b'),
            Term::Lit(b"ab".to_vec()),
            Term::Eps,
            star(byte(b'a')),
            not(byte(b'b')),
            rep(byte(b'a'), 1, 100),
            rep(any(), 0, 1),
            Term::And(vec![star(byte(b'a')), Term::Cat(vec![star(byte(b'a')), byte(b'b')])]),
        ]
    };
    let mut v = vec![];
    let mut ns = vec![15usize, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 100, 127, 128, 129];
    if tier == Tier::Thorough {
        ns.extend([7, 8, 9, 24, 48, 96, 200, 255, 256, 257]);
    }
    for &n in &ns {
        for sp in specials() {
            let mut put = |base: Vec<Term>, op: fn(Vec<Term>) -> Term| {
                for at in [0, 1, n / 2, n - 1, n] {
                    let mut l = base.clone();
                    l.insert(at.min(l.len()), sp.clone());
                    v.push(LCase::of(op(l)));
                }
            };
            // words and near-words, sharing a head or not
            put((1..=n).map(|i| Term::Lit(vec![b'a'; i])).collect(), Term::Or);
            put(
                (1..=n).map(|i| Term::Cat(vec![star(byte(b'b')), Term::Lit(vec![b'a'; i])])).collect(),
                Term::Or,
            );
            put((1..=n).map(|i| not(Term::Lit(vec![b'a'; i]))).collect(), Term::And);
            put((2..n + 2).map(|i| rep(any(), 0, i as u32)).collect(), Term::And);
            if n <= 66 {
                put((0..n).map(|_| rep(byte(b'a'), 0, 1)).collect(), Term::Cat);
                put(
                    (0..n).map(|i| rep(byte(if i % 2 == 0 { b'a' } else { b'b' }), 0, 1)).collect(),
                    Term::Cat,
                );
            }
        }
    }
    // intersections of wide unions: every combination shares a first byte, few of them go on
    for n in [5usize, 9, 17, 33, 40, 66, 80, 129] {
        if tier == Tier::Quick && n > 100 {
            continue;
        }
        for k in [0, n / 2, n - 1, n] {
            let side = |shift: usize, right: bool| -> Term {
                Term::Or(
                    (0..n)
                        .map(|i| {
                            let own = 100 + ((i + shift) % n) as u8;
                            let tail = match (right, i == k) {
                                (false, _) => vec![byte(i as u8), byte(b'z' + 1)],
                                (true, true) => vec![byte(i as u8), range(b'z', b'z' + 1)],
                                (true, false) => vec![byte(99), byte(b'z')],
                            };
                            Term::Cat(std::iter::once(set(move |b| b == b'x' || b == own)).chain(tail).collect())
                        })
                        .collect(),
                )
            };
            for shift in [0, 1] {
                v.push(LCase::of(Term::And(vec![side(0, false), side(shift, true)])));
                v.push(LCase::of(Term::And(vec![side(shift, true), side(0, false), Term::Cat(vec![byte(b'x'), star(any())])])));
                v.push(LCase::of(pre(Term::And(vec![side(0, false), side(shift, true)]))));
                v.push(LCase::of(Term::And(vec![side(0, false), not(side(shift, true))])));
            }
        }
    }
    Fam::list("wide-lists", "operand lists of up to 257 parts with one that differs", v)
}

/// unions/intersections/complements of byte-class concatenations over a 4-letter alphabet
pub fn class_mix(tier: Tier) -> Fam<LCase> {
    // all byte sets over atoms {a,b,c,d} as 4-bit masks (rest never included / always included)
    let mk = |m: u32, rest: bool| {
        set(move |b| match b {
            b'a'..=b'd' => m >> (b - b'a') & 1 == 1,
            _ => rest,
        })
    };
    let mut sets = vec![];
    for m in 0..16 {
        sets.push(mk(m, false));
        if tier == Tier::Thorough || m % 4 == 1 {
            sets.push(mk(m, true));
        }
    }
    let part = Arc::new(Part::from_sets(&[
        bset(|b| b == b'a'),
        bset(|b| b == b'b'),
        bset(|b| b == b'c'),
        bset(|b| b == b'd'),
    ]));
    let n = sets.len() as u64;
    let shapes = 7u64;
    Fam::new(
        "class-mix",
        "all pairs (triples in some shapes) of byte sets over four letters, in complement/union/intersection shapes",
        shapes * n * n * 4,
        move |i| {
            let x = sets[(i % n) as usize].clone();
            let y = sets[(i / n % n) as usize].clone();
            let z = sets[((i / n / n % 4) * 5 % n) as usize].clone();
            let tail = star(byte(b'a'));
            let t = match i / n / n / 4 {
                0 => Term::Or(vec![x, y, z]),
                1 => Term::And(vec![
                    Term::Cat(vec![x, byte(b'a')]),
                    Term::Cat(vec![y, z]),
                ]),
                2 => not(Term::Or(vec![
                    Term::Cat(vec![x, byte(b'a')]),
                    Term::Cat(vec![y, byte(b'b')]),
                    Term::Cat(vec![z, tail]),
                ])),
                3 => Term::And(vec![not(Term::Cat(vec![x, any()])), Term::Cat(vec![y, star(z)])]),
                4 => Term::Cat(vec![star(x), not(y), z]),
                5 => Term::And(vec![
                    Term::Or(vec![Term::Cat(vec![x.clone(), y.clone()]), Term::Cat(vec![y, x])]),
                    not(Term::Cat(vec![z, any()])),
                ]),
                _ => not(Term::And(vec![not(x), not(star(y)), not(Term::Cat(vec![z, any()]))])),
            };
            Some(LCase { term: t, part: Some(part.clone()) })
        },
    )
}

/// prefix closure over intersections/complements (nullability needs an emptiness decision)
pub fn prefix_mix(tier: Tier) -> Fam<LCase> {
    let part = Arc::new(ab_part());
    let pool = Pool::new(
        vec![byte(b'a'), byte(b'b'), set(|b| b != b'a'), Term::Eps, any()],
        vec![Un::Not, Un::Rep(0, INF), Un::Rep(0, 1)],
        BINS.to_vec(),
        tier.pick(3, 4),
    );
    let inner = pool.all();
    let n = inner.len() as u64;
    let shapes = 6;
    Fam::new(
        "prefix-mix",
        "prefix closure of every small term inside six contexts",
        n * shapes,
        move |i| {
            let x = pre(inner[(i % n) as usize].clone());
            let a = byte(b'a');
            let t = match i / n {
                0 => x,
                1 => Term::Cat(vec![x, a]),
                2 => Term::And(vec![x, not(a)]),
                3 => Term::Or(vec![not(x), a]),
                4 => star(Term::Cat(vec![a, x])),
                _ => pre(Term::And(vec![x, star(byte(b'b'))])),
            };
            Some(LCase { term: t, part: Some(part.clone()) })
        },
    )
}

/// Everything a language-level monitor is run over.
pub fn standard(tier: Tier) -> Vec<Fam<LCase>> {
    let part = Arc::new(ab_part());
    let mut v = term_families(tier.pick(4, 5), tier.pick(5, 7));
    let small = Pool::new(leaves_full(), tier.pick(uns_core(), uns_full()), vec![], 2).all();
    v.push(tuples("triples", small, 3, &BINS, part.clone()));
    v.push(tuples(
        "quads",
        vec![
            byte(b'a'),
            byte(b'b'),
            star(byte(b'a')),
            not(byte(b'a')),
            Term::Eps,
            Term::Lit(b"ab".to_vec()),
            rep(any(), 0, 1),
        ],
        4,
        &BINS,
        part.clone(),
    ));
    // longer operand lists, with operands that are empty or universal but do not look it
    let ops = vec![
        byte(b'a'),
        byte(b'b'),
        star(byte(b'a')),
        Term::And(vec![star(byte(b'a')), Term::Cat(vec![star(byte(b'a')), byte(b'b')])]),
        not(Term::And(vec![byte(b'a'), Term::Lit(b"ab".to_vec())])),
        rep(byte(b'b'), 0, 1),
        Term::And(vec![not(byte(b'a')), any()]),
        pre(Term::Lit(b"ab".to_vec())),
    ];
    for k in 4..=tier.pick(5, 6) {
        v.push(tuples(&format!("operands-{k}"), ops.clone(), k, &BINS, part.clone()));
    }
    v.push(shared_heads(tier));
    v.push(class_mix(tier));
    v.push(prefix_mix(tier));
    v.push(alphabet_sweep(tier));
    v.push(byte_sweep(tier));
    v.push(repeat_sweep(tier));
    v.push(width_sweep(tier));
    v.push(wide_lists(tier));
    v
}
