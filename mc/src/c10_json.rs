//! C10: JSON quoting accepts exactly the allowed encodings of the language.

use crate::c03_lookahead::{explore_la, split, LaRef};
use crate::explore::*;
use crate::families::*;
use crate::lang::{Dfa, Part, INF};
use crate::run::*;
use crate::term::*;
use crate::util::*;
use derivre::{JsonQuoteOptions, RegexBuilder};

pub const LETTERS: [u8; 8] = *b"nrbtf\\\"u";

pub fn escapes(mask: u32) -> String {
    (0..8).filter(|i| mask >> i & 1 != 0).map(|i| LETTERS[i] as char).collect()
}
fn on(mask: u32, c: u8) -> bool {
    LETTERS.iter().position(|&x| x == c).map(|i| mask >> i & 1 != 0).unwrap_or(false)
}

/// must be escaped?
fn special(b: u8) -> bool {
    b < 0x20 || b == b'"' || b == b'\\' || b == 0x7f
}
fn short_form(b: u8) -> Option<u8> {
    Some(match b {
        b'"' => b'"',
        b'\\' => b'\\',
        8 => b'b',
        9 => b't',
        10 => b'n',
        12 => b'f',
        13 => b'r',
        _ => return None,
    })
}
fn long_value(e: u8) -> Option<u8> {
    (0..=255u8).find(|&b| short_form(b) == Some(e))
}

/// Decoder: reads the encoding one byte at a time.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum D {
    Open,
    Char,
    Esc,
    U1,
    U2,
    U3,
    U4(u8),
    Done,
    Bad,
}

/// one step; Some(c) when a character has been completed
fn decode(d: D, b: u8, mask: u32, raw: bool) -> (D, Option<u8>) {
    match d {
        D::Open => (if b == b'"' { D::Char } else { D::Bad }, None),
        D::Char => {
            if b == b'\\' {
                (D::Esc, None)
            } else if b == b'"' && !raw {
                (D::Done, None)
            } else if special(b) {
                (D::Bad, None)
            } else {
                (D::Char, Some(b))
            }
        }
        D::Esc => {
            if !on(mask, b) {
                (D::Bad, None)
            } else if b == b'u' {
                (D::U1, None)
            } else {
                (D::Char, long_value(b))
            }
        }
        D::U1 => (if b == b'0' { D::U2 } else { D::Bad }, None),
        D::U2 => (if b == b'0' { D::U3 } else { D::Bad }, None),
        D::U3 => (if matches!(b, b'0' | b'1' | b'7') { D::U4(b - b'0') } else { D::Bad }, None),
        D::U4(h) => {
            let v = match b {
                b'0'..=b'9' => b - b'0',
                b'a'..=b'f' => b - b'a' + 10,
                b'A'..=b'F' => b - b'A' + 10,
                _ => return (D::Bad, None),
            };
            if h < 2 {
                (D::Char, Some(h * 16 + v))
            } else if b == b'F' {
                (D::Char, Some(0x7f))
            } else {
                (D::Bad, None)
            }
        }
        D::Done | D::Bad => (D::Bad, None),
    }
}

/// The strings that decode to a word of `d`.
pub fn encoded(d: &Dfa, p: &Part, mask: u32, raw: bool) -> (Dfa, Part) {
    // refine: every byte the decoder can tell apart
    let mut sets: Vec<BSet> = vec![];
    for m in &p.members {
        sets.push(bset(|b| m.contains(&b)));
    }
    for b in 0..0x80u8 {
        if special(b) && b >= 0x20 || LETTERS.contains(&b) || b.is_ascii_hexdigit() {
            sets.push(bset(|x| x == b));
        }
    }
    sets.push(bset(|b| b < 0x20));
    let part = Part::from_sets(&sets);
    let mut ids = std::collections::HashMap::new();
    let mut list = vec![];
    let start = (if raw { D::Char } else { D::Open }, 0u32);
    ids.insert(start, 0u32);
    list.push(start);
    let (mut trans, mut acc) = (vec![], vec![]);
    let mut i = 0;
    while i < list.len() {
        let (s, q) = list[i];
        acc.push(d.acc[q as usize] && s == if raw { D::Char } else { D::Done });
        for m in &part.members {
            let (t, c) = decode(s, m[0], mask, raw);
            let q2 = match c {
                Some(c) => d.step(q, p.class_of[c as usize] as usize),
                None => q,
            };
            let k = if t == D::Bad { (D::Bad, 0) } else { (t, q2) };
            let n = list.len() as u32;
            let id = *ids.entry(k).or_insert(n);
            if id == n {
                list.push(k);
            }
            trans.push(id);
        }
        i += 1;
    }
    (Dfa::finish(part.k(), trans, acc), part)
}

/// Same thing as a substitution on terms (second, independent construction).
fn subst(t: &Term, mask: u32) -> Term {
    let one = |b: u8| -> Term {
        if !special(b) {
            return byte(b);
        }
        let mut v = vec![];
        if let Some(s) = short_form(b) {
            if on(mask, s) {
                v.push(Term::Lit(vec![b'\\', s]));
            }
        }
        if on(mask, b'u') {
            if b < 0x20 {
                v.push(lit(&format!("\\u{b:04x}")));
                v.push(lit(&format!("\\u{b:04X}")));
            } else if b == 0x7f {
                v.push(lit("\\u007F"));
            }
        }
        Term::Or(v)
    };
    let many = |v: &Vec<Term>| v.iter().map(|t| subst(t, mask)).collect::<Vec<_>>();
    match t {
        Term::Byte(b) => one(*b),
        Term::Set(s) => {
            let mut v = vec![set(|b| s[b as usize] && !special(b))];
            for b in 0..0x80u8 {
                if s[b as usize] && special(b) {
                    v.push(one(b));
                }
            }
            Term::Or(v)
        }
        Term::Lit(v) => Term::Cat(v.iter().map(|&b| one(b)).collect()),
        Term::Txt(s) => Term::Cat(s.as_bytes().iter().map(|&b| one(b)).collect()),
        Term::Eps => Term::Eps,
        Term::None => Term::None,
        Term::Cat(v) => Term::Cat(many(v)),
        Term::Or(v) => Term::Or(many(v)),
        Term::Rep(x, a, b) => rep(subst(x, mask), *a, *b),
        Term::La(x) => la(subst(x, mask)),
        Term::Rx(_, t) => subst(t, mask),
        _ => panic!("no substitution for this operator"),
    }
}

fn plain_ops(t: &Term) -> bool {
    match t {
        Term::And(_) | Term::Not(_) | Term::Pre(_) => false,
        Term::Cat(v) | Term::Or(v) => v.iter().all(plain_ops),
        Term::Rep(x, _, _) | Term::La(x) => plain_ops(x),
        Term::Rx(_, x) => plain_ops(x),
        _ => true,
    }
}

#[derive(Clone)]
pub enum QCase {
    /// term, escape mask, raw, times quoted
    Quote(Term, u32, bool, u32),
    /// lookahead term, raw only
    La(Term, u32),
    /// escape string that must be refused
    BadEsc(Vec<u8>),
    /// sequence of quotes on one builder
    Seq(Vec<(u32, bool)>),
    /// must be refused
    Refuse(Term),
}

pub struct Json;

fn atoms() -> Vec<Term> {
    vec![
        any(),
        set(|b| b != b'\n'),
        range(0, 0x1f),
        set(|b| b < 0x20 && b != b'\n'),
        set(|b| b != b'"'),
        set(|b| b != b'\\'),
        set(|b| b >= 0x20),
        set(|b| b < 0x80),
        set(|b| b < 0x20 && b != b'\t'),
        set(|b| b < 0x21 && b != b'\n'),
        set(|b| b != b'"' && b != b'\\' && b != b'\n' && b != 0x7f),
        set(|b| !special(b)),
        set(|b| special(b)),
        set(|b| b"\x08\t\n\x0c\r\"\\".contains(&b)),
        set(|b| b == b'\n' || b == b'\r'),
        set(|b| b == 0 || b == b'x'),
        set(|b| b == 0x7f || b == b'"'),
        set(|b| b < 0x20 && b % 2 == 0),
        range(8, 13),
        range(0x80, 0xff),
        byte(b'"'),
        byte(b'\\'),
        byte(b'\n'),
        byte(b'\r'),
        byte(b'\t'),
        byte(8),
        byte(12),
        byte(0),
        byte(0x0a + 1),
        byte(0x1a),
        byte(0x1f),
        byte(0x20),
        byte(0x7f),
        byte(b'a'),
        byte(b'u'),
        byte(b'/'),
        byte(0xc3),
        Term::Txt("\u{e9}".into()),
        lit("\"\\\n\x00\x7fa\u{8}\u{c}\r\t\x1f"),
        lit("\\n"),
        lit("u000a"),
        Term::Eps,
        Term::None,
    ]
}

fn pool_leaves() -> Vec<Term> {
    vec![any(), set(|b| b != b'\n'), byte(b'"'), byte(b'\\'), byte(b'\n'), byte(b'a'), byte(0x7f), set(|b| b < 0x20 || b == b'x'), lit("a\n\u{e9}"), Term::Eps]
}
fn pool_uns() -> Vec<Un> {
    vec![Un::Rep(0, INF), Un::Rep(1, INF), Un::Rep(0, 1), Un::Rep(1, 2), Un::Rep(2, 3)]
}
/// option sets worth combining with larger expressions
fn masks() -> Vec<u32> {
    let mut v = vec![0xff, 0x7f, 0, 0x80, 0x60, 0xe0, 0x1f, 0x9f, 0x01, 0x81, 0xfe, 0x7e, 0xdf, 0xbf, 0x5f, 0x3f];
    v.dedup();
    v
}

fn options(mask: u32, raw: bool) -> JsonQuoteOptions {
    JsonQuoteOptions { allowed_escapes: escapes(mask), raw_mode: raw }
}

impl Check for Json {
    type Case = QCase;
    type Scratch = Refs;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn scratch(&self) -> Refs {
        Refs::new()
    }
    fn families(&self, tier: Tier) -> Vec<Fam<QCase>> {
        let mut fams = vec![];
        let a = atoms();
        let n = a.len() as u64;
        fams.push(Fam::new("atoms", "43 leaf expressions x all 256 escape sets x raw or not", n * 512, move |i| {
            Some(QCase::Quote(a[(i / 512) as usize].clone(), (i % 256) as u32, i / 256 % 2 == 1, 1))
        }));
        let a = atoms();
        fams.push(Fam::new("atoms-repeated", "the leaves followed by others and repeated x all 256 escape sets", n * 512, move |i| {
            let t = a[(i / 512) as usize].clone();
            let t = if i / 256 % 2 == 1 {
                Term::Or(vec![Term::Cat(vec![t.clone(), byte(b'\n')]), lit("\\"), Term::Cat(vec![byte(b'a'), t])])
            } else {
                star(Term::Cat(vec![t, rep(byte(b'"'), 0, 2)]))
            };
            Some(QCase::Quote(t, (i % 256) as u32, true, 1))
        }));
        fams.push(Fam::new("single-bytes", "every byte and every complement of a byte x 256 escape sets", 512 * 256, move |i| {
            let k = i / 512;
            let mask = k;
            let b = (i % 256) as u8;
            let t = if i / 256 % 2 == 0 { byte(b) } else { set(move |x| x != b) };
            Some(QCase::Quote(t, mask as u32, k % 3 == 0, 1))
        }));
        // all subsets of the bytes that have a short escape or are special, mixed with fillers
        let elems: [u8; 9] = [8, 9, 10, 12, 13, b'"', b'\\', 0x7f, 0];
        fams.push(Fam::new("special-subsets", "all 512 subsets of the escapable bytes x 4 fillers x 16 escape sets", 512 * 4 * 16, move |i| {
            let (sub, fill, m) = (i % 512, i / 512 % 4, i / 2048);
            let s = set(move |b| match elems.iter().position(|&e| e == b) {
                Some(k) => sub >> k & 1 != 0,
                None => match fill {
                    0 => false,
                    1 => b >= 0x20,
                    2 => b < 0x20,
                    _ => true,
                },
            });
            Some(QCase::Quote(s, masks()[m as usize], i % 2 == 0, 1))
        }));
        // sets given by two bytes around the quoting decisions
        let edge: Vec<u8> = (0..=0x23u8).chain([b'[', b'\\', b']', 0x7e, 0x7f, 0x80, 0xff]).collect();
        let mut pairs = vec![];
        for (i, &a) in edge.iter().enumerate() {
            for &b in &edge[i..] {
                pairs.push((a, b));
            }
        }
        let n = pairs.len() as u64;
        fams.push(Fam::new("edge-pairs", &format!("sets given by two of {} bytes in six ways x 16 escape sets", edge.len()), n * 6 * 16, move |i| {
            let (a, b) = pairs[(i / 96) as usize];
            let s = match i % 6 {
                0 => set(move |x| x == a || x == b),
                1 => set(move |x| x != a && x != b),
                2 => set(move |x| x < 0x20 && x != a && x != b),
                3 => set(move |x| a <= x && x <= b),
                4 => set(move |x| !(a <= x && x <= b)),
                _ => set(move |x| (x < 0x20) != (x == a || x == b)),
            };
            Some(QCase::Quote(s, masks()[(i / 6 % 16) as usize], i % 5 == 0, 1))
        }));
        if tier == Tier::Thorough {
            let e = edge.clone();
            let n = e.len() as u64;
            fams.push(Fam::new("edge-triples", "sets without three of these bytes, and with just three", n * n * n * 2 * 4, move |i| {
                let (x, y, z) = ((i / 8 % n) as usize, (i / 8 / n % n) as usize, (i / 8 / n / n) as usize);
                if !(x < y && y < z) {
                    return None;
                }
                let (x, y, z) = (e[x], e[y], e[z]);
                let s = if i % 2 == 0 { set(move |b| b != x && b != y && b != z) } else { set(move |b| b == x || b == y || b == z) };
                Some(QCase::Quote(s, [0xff, 0x7f, 0x80, 0x55][(i / 2 % 4) as usize], true, 1))
            }));
        }
        let pool = Pool::new(pool_leaves(), pool_uns(), vec![Bin::Cat, Bin::Or], tier.pick(4, 5)).all();
        let ms = masks();
        let k = ms.len() as u64;
        let n = pool.len() as u64;
        fams.push(Fam::new("terms", "every small term over 10 leaves x 16 escape sets", n * k, move |i| {
            Some(QCase::Quote(pool[(i / k) as usize].clone(), ms[(i % k) as usize], i % 2 == 0, 1))
        }));
        let mut v = vec![];
        for t in Pool::new(pool_leaves(), vec![Un::Rep(0, INF)], vec![Bin::Cat], 2).all().into_iter().chain(atoms()) {
            for m in masks() {
                for raw in [false, true] {
                    v.push(QCase::Quote(t.clone(), m, raw, 2));
                }
            }
        }
        fams.push(Fam::list("quoted-twice", "the quoted expression quoted again", v));
        let mut v = vec![];
        let p2 = Pool::new(pool_leaves(), pool_uns(), vec![Bin::Cat, Bin::Or], 2).all();
        for a in &p2 {
            for b in &p2 {
                for m in [0xff, 0x7f, 0x80] {
                    v.push(QCase::La(Term::Cat(vec![a.clone(), la(b.clone())]), m));
                }
            }
        }
        fams.push(Fam::list("lookahead", "lookaheads quoted in raw mode", v));
        // patterns
        let mut v = vec![];
        for (s, t) in [
            ("[^\"]*", star(Term::Uni(crate::utf8::complement(&[(34, 34)])))),
            (".", Term::Uni(crate::utf8::complement(&[(10, 10)]))),
            (".*", star(Term::Uni(crate::utf8::complement(&[(10, 10)])))),
            ("(?s:.)", Term::Uni(vec![(0, 0x10FFFF)])),
            ("(?s:.){1,2}", rep(Term::Uni(vec![(0, 0x10FFFF)]), 1, 2)),
            ("[\\x00-\\x1f]", Term::Uni(vec![(0, 0x1f)])),
            ("\\s", Term::Uni(vec![(9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)])),
            ("[^\\x{20}-\\x{10ffff}]", Term::Uni(vec![(0, 0x1f)])),
            ("\\x7f|\\\\|\"", Term::Or(vec![byte(0x7f), byte(b'\\'), byte(b'"')])),
        ] {
            for m in 0..256 {
                for raw in [false, true] {
                    v.push(QCase::Quote(Term::Rx(s.into(), Box::new(t.clone())), m, raw, 1));
                }
            }
        }
        fams.push(Fam::list("patterns", "9 patterns x 256 escape sets x raw or not", v));
        let mut v = vec![];
        for a in Pool::new(vec![byte(b'a'), byte(b'\n'), any(), Term::Eps, Term::None], vec![Un::Not, Un::Pre, Un::Rep(0, INF), Un::Rep(1, 2)], BINS.to_vec(), 4).all() {
            if !plain_ops(&a) {
                v.push(QCase::Quote(a.clone(), 0xff, v.len() % 2 == 0, 1));
            }
        }
        fams.push(Fam::list("refused-or-exact", "expressions with intersection, complement or prefixes: refused unless simplified away, and then exact", v));
        let mut v = vec![];
        let l = |s: &str| lit(s);
        for t in [
            not(l("ab")),
            Term::And(vec![star(any()), not(l("ab"))]),
            Term::And(vec![Term::Cat(vec![star(byte(b'a')), byte(b'b')]), Term::Cat(vec![byte(b'a'), star(byte(b'b'))])]),
            pre(Term::Cat(vec![star(byte(b'a')), byte(b'b')])),
            Term::Cat(vec![l("x"), not(l("ab")), l("y")]),
            star(Term::Cat(vec![l("x"), not(l("ab"))])),
            Term::Or(vec![l("x"), not(l("ab"))]),
            Term::Cat(vec![l("x"), la(Term::Cat(vec![l("z"), not(l("ab"))]))]),
            rep(Term::And(vec![star(Term::Or(vec![byte(b'a'), l("bc")])), not(l("abc"))]), 2, 3),
        ] {
            v.push(QCase::Refuse(t));
        }
        fams.push(Fam::list("refused", "irreducible uses of the unsupported operators", v));
        let mut v = vec![];
        for b in 0..=127u8 {
            if !LETTERS.contains(&b) {
                v.push(QCase::BadEsc(vec![b]));
                v.push(QCase::BadEsc(vec![b'n', b]));
                v.push(QCase::BadEsc(vec![b, b'u']));
            }
        }
        v.push(QCase::BadEsc("n\u{e9}".as_bytes().to_vec()));
        v.push(QCase::BadEsc("\u{20ac}".as_bytes().to_vec()));
        fams.push(Fam::list("bad-escape-letters", "every ASCII letter that is no escape, alone and with others", v));
        let ms = masks();
        let n = ms.len() as u64 * 2;
        let len = tier.pick(2, 3);
        fams.push(Fam::new("sequences", "sequences of quotes with different options on one builder", n.pow(len), move |mut i| {
            let mut v = vec![];
            for _ in 0..len {
                v.push((ms[(i % n / 2) as usize], i % 2 == 0));
                i /= n;
            }
            Some(QCase::Seq(v))
        }));
        // two sets that differ in one byte (or byte range) in one expression
        let bases: Vec<fn(u8) -> bool> = vec![
            |_| true,
            |b| b != b'\n',
            |b| b >= 0x20,
            |b| b != b'"' && b != b'\\',
            |b| b < 0x20 || b == b'x',
            |b| b == b'\n' || b == b'"' || b >= 0x80,
            |b| b < 0x80,
            |b| b == b'\\' || b == b'u',
        ];
        let n = bases.len() as u64;
        let ms = [0xffu32, 0x7f, 0, 0x81];
        fams.push(Fam::new("two-sets", "a set next to the same set with one byte (32 of them, the upper half) flipped x 4 escape sets", n * (256 + 9) * 3 * 4, move |i| {
            let f = bases[(i % n) as usize];
            let k = i / n % 265;
            let flip = move |b: u8| if k < 256 { b as u64 == k } else if k == 264 { b >= 0x80 } else { b as u64 / 32 == k - 256 };
            let (s, t) = (set(move |b| f(b)), set(move |b| f(b) != flip(b)));
            let r = i / n / 265;
            let term = match r % 3 {
                0 => Term::Cat(vec![s, t]),
                1 => Term::Or(vec![Term::Cat(vec![s, byte(b'1')]), Term::Cat(vec![t, byte(b'2')])]),
                _ => Term::Cat(vec![t, star(s)]),
            };
            let m = ms[(r / 3) as usize];
            Some(QCase::Quote(term, m, (i + k) % 2 == 0, 1))
        }));
        // counts around powers of two and of ten
        let mut v = vec![];
        let body = [set(|b| b == b'a' || b == b'\n'), byte(b'"'), lit("a\u{7f}"), set(|b| b != b'\\')];
        for n in tier.pick(vec![63u32, 64, 65, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1025], vec![31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4097]) {
            for t in &body {
                for (lo, hi) in [(0, n), (2, n), (n - 1, n), (n, n), (n, INF)] {
                    let r = rep(t.clone(), lo, hi);
                    for (m, raw) in [(0xffu32, false), (0x7f, true), (0, true)] {
                        if n > 300 && (m != 0xff || lo == n - 1) {
                            continue;
                        }
                        v.push(QCase::Quote(r.clone(), m, raw, 1));
                        if n < 300 && lo == 2 {
                            v.push(QCase::Quote(Term::Cat(vec![byte(b'"'), r.clone(), star(lit("\n"))]), m, raw, 1));
                        }
                    }
                }
            }
            // and as many different pieces in a row
            let words: Vec<Term> = (0..n).map(|i| rep(byte(if i % 3 == 0 { b'"' } else { b'a' + (i % 2) as u8 }), 0, 1 + i % 2)).collect();
            if n <= 129 {
                v.push(QCase::Quote(Term::Cat(words), 0xff, false, 1));
            }
            let long: Vec<u8> = (0..n).map(|i| b"a\"\n\x7f\\\x01"[(i * i % 6) as usize]).collect();
            v.push(QCase::Quote(Term::Lit(long.clone()), 0xff, false, 1));
            v.push(QCase::Quote(Term::Lit(long), 0, true, 1));
        }
        fams.push(Fam::list("counts", "repetitions with large counts and long literals", v));
        fams
    }
    fn text(&self, c: &QCase) -> String {
        match c {
            QCase::Quote(t, m, r, n) => format!("quote {m} {} {n} {}", *r as u8, t.text()),
            QCase::La(t, m) => format!("la {m} {}", t.text()),
            QCase::BadEsc(v) => format!("badesc {}", hex(v)),
            QCase::Seq(v) => format!("seq {}", v.iter().map(|(m, r)| format!("{m}:{}", *r as u8)).collect::<Vec<_>>().join(",")),
            QCase::Refuse(t) => format!("refuse {}", t.text()),
        }
    }
    fn parse(&self, s: &str) -> QCase {
        let (k, r) = s.split_once(' ').unwrap();
        match k {
            "quote" => {
                let w: Vec<&str> = r.splitn(4, ' ').collect();
                QCase::Quote(Term::parse(w[3]), w[0].parse().unwrap(), w[1] == "1", w[2].parse().unwrap())
            }
            "la" => {
                let (m, t) = r.split_once(' ').unwrap();
                QCase::La(Term::parse(t), m.parse().unwrap())
            }
            "badesc" => QCase::BadEsc(unhex(r)),
            "refuse" => QCase::Refuse(Term::parse(r)),
            _ => QCase::Seq(
                r.split(',')
                    .map(|x| {
                        let (m, r) = x.split_once(':').unwrap();
                        (m.parse().unwrap(), r == "1")
                    })
                    .collect(),
            ),
        }
    }
    fn prelude(&self, _: Tier, st: &mut Stats) -> Result<(), String> {
        // decoder and substitution describe the same encodings
        let mut refs = Refs::new();
        let terms = atoms().into_iter().chain(Pool::new(pool_leaves(), vec![Un::Rep(0, INF), Un::Rep(1, 2)], vec![Bin::Cat, Bin::Or], 3).all());
        for (i, t) in terms.enumerate() {
            let all: Vec<u32> = if i < atoms().len() { (0..256).collect() } else { vec![0xff, 0x5f, 0xa1] };
            for m in all {
                let c = LCase::of(t.clone());
                let (e, p) = with_ref(&c, &mut refs, |d, p| encoded(d, p, m, true));
                let s = subst(&t, m).lang(refs.langs(&p), &p);
                if e.minimize() != **refs.langs(&p).get(s) {
                    return Err(format!("decoder and substitution disagree on {} with escapes {:?}", t.text(), escapes(m)));
                }
                st.add("encodings_cross_checked", 1);
            }
        }
        Ok(())
    }
    fn run(&self, c: &QCase, w: &mut Refs, st: &mut Stats) -> Result<(), String> {
        match c {
            QCase::Quote(t, mask, raw, times) => {
                let mut b = RegexBuilder::new();
                let e0 = b.mk(&t.to_ast()).map_err(|e| format!("building failed: {e}"))?;
                let opt = options(*mask, *raw);
                let mut e = e0;
                for _ in 0..*times {
                    e = match b.json_quote(e, &opt) {
                        Ok(e) => e,
                        Err(x) => {
                            if plain_ops(t) {
                                return Err(format!("quoting refused: {x}"));
                            }
                            st.add("refused", 1);
                            return Ok(());
                        }
                    };
                }
                let again = b.json_quote(e0, &opt).map_err(|x| format!("second quoting refused: {x}"))?;
                if *times == 1 && again != e {
                    return Err("quoting twice gives different references".into());
                }
                // the ready-made options: all short escapes, without or with \u, no surrounding quotes
                if *times == 1 && *raw && (*mask == 0x7f || *mask == 0xff) {
                    let preset = if *mask == 0xff { JsonQuoteOptions::with_unicode() } else { JsonQuoteOptions::no_unicode() };
                    match b.json_quote(e0, &preset) {
                        Ok(x) if x == e => {}
                        Ok(_) => return Err(format!("the ready-made options {preset:?} quote differently from {opt:?}")),
                        Err(x) => return Err(format!("the ready-made options are refused: {x}")),
                    }
                }
                let c = LCase::of(t.clone());
                let (mut d, mut p) = with_ref(&c, w, |d, p| encoded(d, p, *mask, *raw));
                for _ in 1..*times {
                    (d, p) = encoded(&d, &p, *mask, *raw);
                }
                let mut rx = b.to_regex(e);
                let o = Opts { bytes: Bytes::Reps, mon: Mon { acc: true, dead: true, ..MON0 }, cap: 60_000 };
                explore(&mut rx, &d, &p, &o).map_err(|m| format!("escapes {:?}, raw {raw}: {m}", escapes(*mask)))?.record(st);
                st.outcome(&(&d.trans, &d.acc));
                // the original keeps its language
                if *times == 1 && *mask % 16 == 15 {
                    let mut rx = b.to_regex(e0);
                    with_ref(&c, w, |d, p| explore(&mut rx, d, p, &o).map(|x| x.record(st)))
                        .map_err(|m| format!("the expression that was quoted changed: {m}"))?;
                }
                Ok(())
            }
            QCase::La(t, mask) => {
                let mut b = RegexBuilder::new();
                let e = b.mk(&t.to_ast()).map_err(|e| format!("building failed: {e}"))?;
                let e = b.json_quote(e, &options(*mask, true)).map_err(|e| format!("quoting refused: {e}"))?;
                let mut rx = b.to_regex(e);
                let q = subst(t, *mask);
                let p = q.part();
                let r = LaRef::new(&split(&q).unwrap(), w.langs(&p), &p);
                explore_la(&mut rx, &r, &p, &p.reps1(), 7, &Mon { acc: true, len: true, dead: true, ..MON0 }, st, 3000)?;
                // this family is bounded by a pair count as well as a depth
                st.capped = 0;
                Ok(())
            }
            QCase::BadEsc(v) => {
                let s = String::from_utf8(v.clone()).unwrap();
                for raw in [false, true] {
                    let mut b = RegexBuilder::new();
                    let e = b.mk(&byte(b'a').to_ast()).unwrap();
                    let o = JsonQuoteOptions { allowed_escapes: s.clone(), raw_mode: raw };
                    if b.json_quote(e, &o).is_ok() {
                        return Err(format!("escape letters {s:?} accepted"));
                    }
                    // and the builder is still fine
                    b.json_quote(e, &options(0xff, raw)).map_err(|e| format!("quoting refused after an error: {e}"))?;
                }
                st.transitions += 2;
                Ok(())
            }
            QCase::Refuse(t) => {
                for m in masks() {
                    for raw in [false, true] {
                        let mut b = RegexBuilder::new();
                        let e = b.mk(&t.to_ast()).map_err(|e| format!("building failed: {e}"))?;
                        if b.json_quote(e, &options(m, raw)).is_ok() {
                            return Err(format!("quoted without an error (escapes {:?})", escapes(m)));
                        }
                        let mut rx = b.to_regex(e);
                        if split(t).is_none() {
                            let o = Opts { bytes: Bytes::Reps, mon: Mon { acc: true, ..MON0 }, cap: 60_000 };
                            with_ref(&LCase::of(t.clone()), w, |d, p| explore(&mut rx, d, p, &o).map(|x| x.record(st)))
                                .map_err(|m| format!("the expression changed by the failed quoting: {m}"))?;
                        }
                    }
                }
                Ok(())
            }
            QCase::Seq(v) => {
                let terms = [set(|b| b != b'\n'), any(), star(range(0, 0x40)), lit("a\"\n")];
                let mut b = RegexBuilder::new();
                let refs: Vec<_> = terms.iter().map(|t| b.mk(&t.to_ast()).unwrap()).collect();
                let mut made = vec![];
                for (m, raw) in v {
                    for (i, e) in refs.iter().enumerate() {
                        let q = b.json_quote(*e, &options(*m, *raw)).map_err(|e| format!("quoting refused: {e}"))?;
                        made.push((i, *m, *raw, q));
                    }
                }
                let o = Opts { bytes: Bytes::Reps1, mon: Mon { acc: true, ..MON0 }, cap: 60_000 };
                for (i, m, raw, q) in made {
                    let (d, p) = with_ref(&LCase::of(terms[i].clone()), w, |d, p| encoded(d, p, m, raw));
                    let mut rx = b.to_regex(q);
                    explore(&mut rx, &d, &p, &o).map_err(|e| format!("term {i}, escapes {:?}: {e}", escapes(m)))?.record(st);
                }
                Ok(())
            }
        }
    }
    fn rule(&self) -> String {
        "expressions x escape sets x modes; the reference runs a character-by-character decoder in front of the automaton \
         of the original language; the product with the matcher of the quoted expression is explored to a fixpoint"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the decoder is cross-checked against a separate substitution on terms in every run".into(),
            "quoted lookaheads are compared up to 7 bytes".into(),
        ]
    }
}
