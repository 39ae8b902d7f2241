//! Reference semantics of regular-expression patterns: Thompson automata over bytes with
//! position-aware zero-width assertions, determinised by subset construction.

use crate::lang::{subset, Dfa, Part};
use crate::term::{bset, BSet};
use crate::utf8::{self, Ranges};
use regex_syntax::hir::{Class, Hir, HirKind, Look};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum L {
    Start,
    End,
    StartLF,
    EndLF,
    StartCRLF,
    EndCRLF,
    Word,
    NotWord,
    WordStart,
    WordEnd,
    WordStartHalf,
    WordEndHalf,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum P {
    Eps,
    None,
    Lit(Vec<u8>),
    Set(Box<BSet>),
    Uni(Ranges),
    /// assertion; the flag is set when word characters are meant in the Unicode sense
    Look(L, bool),
    Rep(Box<P>, u32, u32),
    Cat(Vec<P>),
    Alt(Vec<P>),
}

pub fn pset(f: impl Fn(u8) -> bool) -> P {
    P::Set(Box::new(bset(f)))
}

fn is_word(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_'
}

/// What lies on one side of a position.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Side {
    edge: bool,
    nl: bool,
    cr: bool,
    word: bool,
}
impl Side {
    const EDGE: Side = Side { edge: true, nl: false, cr: false, word: false };
    fn of(b: u8) -> Side {
        Side { edge: false, nl: b == b'\n', cr: b == b'\r', word: is_word(b) }
    }
    fn code(self) -> u64 {
        (self.edge as u64) | (self.nl as u64) << 1 | (self.cr as u64) << 2 | (self.word as u64) << 3
    }
    fn from_code(c: u64) -> Side {
        Side { edge: c & 1 != 0, nl: c & 2 != 0, cr: c & 4 != 0, word: c & 8 != 0 }
    }
}

fn holds(l: L, p: Side, n: Side) -> bool {
    match l {
        L::Start => p.edge,
        L::End => n.edge,
        L::StartLF => p.edge || p.nl,
        L::EndLF => n.edge || n.nl,
        L::StartCRLF => p.edge || p.nl || (p.cr && !n.nl),
        L::EndCRLF => n.edge || n.cr || (n.nl && !p.cr),
        L::Word => p.word != n.word,
        L::NotWord => p.word == n.word,
        L::WordStart => !p.word && n.word,
        L::WordEnd => p.word && !n.word,
        L::WordStartHalf => !p.word,
        L::WordEndHalf => !n.word,
    }
}

enum N {
    Bytes(Box<BSet>, u32),
    /// deterministic table; u32::MAX = no way
    Table(Box<[u32; 256]>),
    Split(Vec<u32>),
    Look(L, u32),
    Match,
}

#[derive(Default)]
pub struct Nfa {
    n: Vec<N>,
    start: u32,
    looks: bool,
}

impl Nfa {
    fn push(&mut self, x: N) -> u32 {
        self.n.push(x);
        self.n.len() as u32 - 1
    }
    /// build p so that it continues at `next`; returns its entry
    fn build(&mut self, p: &P, next: u32) -> u32 {
        match p {
            P::Eps => next,
            P::None => self.push(N::Split(vec![])),
            P::Lit(v) => {
                let mut t = next;
                for &b in v.iter().rev() {
                    t = self.push(N::Bytes(Box::new(bset(|x| x == b)), t));
                }
                t
            }
            P::Set(s) => self.push(N::Bytes(s.clone(), next)),
            P::Uni(r) => {
                let d = utf8::byte_dfa(r);
                let base = self.n.len() as u32;
                // rows 0.., with 1 = accept and 2 = sink
                for row in &d.rows {
                    let mut t = [u32::MAX; 256];
                    for b in 0..256 {
                        t[b] = match row[b] {
                            2 => u32::MAX,
                            1 => next,
                            q => base + q,
                        };
                    }
                    self.push(N::Table(Box::new(t)));
                }
                base
            }
            P::Look(l, _) => {
                self.looks = true;
                self.push(N::Look(*l, next))
            }
            P::Cat(v) => {
                let mut t = next;
                for x in v.iter().rev() {
                    t = self.build(x, t);
                }
                t
            }
            P::Alt(v) => {
                let k: Vec<u32> = v.iter().map(|x| self.build(x, next)).collect();
                self.push(N::Split(k))
            }
            P::Rep(x, lo, hi) => {
                let mut t = next;
                if *hi == u32::MAX {
                    let l = self.push(N::Split(vec![]));
                    let b = self.build(x, l);
                    self.n[l as usize] = N::Split(vec![b, next]);
                    t = l;
                } else {
                    if lo > hi {
                        return self.push(N::Split(vec![]));
                    }
                    for _ in *lo..*hi {
                        let b = self.build(x, t);
                        t = self.push(N::Split(vec![b, next]));
                    }
                }
                for _ in 0..*lo {
                    t = self.build(x, t);
                }
                t
            }
        }
    }
    fn closure(&self, from: &[u64], p: Side, n: Side, seen: &mut Vec<u32>, mark: &mut Vec<bool>) {
        seen.clear();
        let mut todo: Vec<u32> = from.iter().map(|&x| x as u32).collect();
        while let Some(q) = todo.pop() {
            if mark[q as usize] {
                continue;
            }
            mark[q as usize] = true;
            seen.push(q);
            match &self.n[q as usize] {
                N::Split(v) => todo.extend(v.iter().copied()),
                N::Look(l, t) => {
                    if holds(*l, p, n) {
                        todo.push(*t)
                    }
                }
                _ => {}
            }
        }
        for &q in seen.iter() {
            mark[q as usize] = false;
        }
    }
    fn dfa(&self, part: &Part) -> Dfa {
        const TAG: u64 = 1 << 60;
        let mut init = vec![self.start as u64];
        init.push(TAG | if self.looks { Side::EDGE.code() } else { 0 });
        let sides: Vec<Side> = part.members.iter().map(|m| Side::of(m[0])).collect();
        let reps: Vec<u8> = part.members.iter().map(|m| m[0]).collect();
        let mut seen = vec![];
        let mut mark = vec![false; self.n.len()];
        let mark2 = std::cell::RefCell::new(vec![false; self.n.len()]);
        let mut last: Option<Vec<u64>> = None;
        subset(
            part.k(),
            init,
            |cur, c, out| {
                let (tag, nodes) = cur.split_last().unwrap();
                let prev = Side::from_code(tag & 0xff);
                // without assertions the closure does not depend on the next byte
                if self.looks || last.as_deref() != Some(cur) {
                    self.closure(nodes, prev, sides[c], &mut seen, &mut mark);
                    last = Some(cur.to_vec());
                }
                for &q in &seen {
                    match &self.n[q as usize] {
                        N::Bytes(s, t) => {
                            if s[reps[c] as usize] {
                                out.push(*t as u64);
                            }
                        }
                        N::Table(t) => {
                            let x = t[reps[c] as usize];
                            if x != u32::MAX {
                                out.push(x as u64);
                            }
                        }
                        _ => {}
                    }
                }
                if out.is_empty() {
                    out.push(TAG); // dead: position no longer matters
                } else {
                    out.push(TAG | if self.looks { sides[c].code() } else { 0 });
                }
            },
            |cur| {
                let (tag, nodes) = cur.split_last().unwrap();
                let mut s = vec![];
                self.closure(nodes, Side::from_code(tag & 0xff), Side::EDGE, &mut s, &mut mark2.borrow_mut());
                s.iter().any(|&q| matches!(self.n[q as usize], N::Match))
            },
        )
    }
}

impl P {
    pub fn has_look(&self) -> bool {
        match self {
            P::Look(..) => true,
            P::Rep(x, _, _) => x.has_look(),
            P::Cat(v) | P::Alt(v) => v.iter().any(|x| x.has_look()),
            _ => false,
        }
    }
    pub fn has_unicode_look(&self) -> bool {
        match self {
            P::Look(_, u) => *u,
            P::Rep(x, _, _) => x.has_unicode_look(),
            P::Cat(v) | P::Alt(v) => v.iter().any(|x| x.has_unicode_look()),
            _ => false,
        }
    }
    pub fn sets(&self, out: &mut Vec<BSet>) {
        match self {
            P::Eps | P::None => {}
            P::Lit(v) => {
                for &b in v {
                    out.push(bset(|x| x == b))
                }
            }
            P::Set(s) => out.push(**s),
            P::Uni(r) => out.extend(utf8::byte_dfa(r).column_sets()),
            P::Look(..) => {
                out.push(bset(|x| x == b'\n'));
                out.push(bset(|x| x == b'\r'));
                out.push(bset(is_word));
                out.push(bset(|x| x < 0x80));
            }
            P::Rep(x, _, _) => x.sets(out),
            P::Cat(v) | P::Alt(v) => v.iter().for_each(|x| x.sets(out)),
        }
    }
    pub fn part(&self) -> Part {
        let mut v = vec![];
        self.sets(&mut v);
        v.sort_unstable();
        v.dedup();
        Part::from_sets(&v)
    }
    pub fn dfa(&self, part: &Part) -> Dfa {
        let mut n = Nfa::default();
        let m = n.push(N::Match);
        n.start = n.build(self, m);
        let d = n.dfa(part);
        d.minimize()
    }
}

/// Translation of a parsed pattern (the parser is the regex-syntax crate, as in the library).
/// None for patterns holding a (?P<stop>..) lookahead.
pub fn from_hir(h: &Hir) -> Option<P> {
    Some(match h.kind() {
        HirKind::Empty => P::Eps,
        HirKind::Literal(b) => P::Lit(b.0.to_vec()),
        HirKind::Class(Class::Unicode(u)) => {
            P::Uni(u.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect())
        }
        HirKind::Class(Class::Bytes(u)) => {
            let mut s = [false; 256];
            for r in u.ranges() {
                for b in r.start()..=r.end() {
                    s[b as usize] = true;
                }
            }
            P::Set(Box::new(s))
        }
        HirKind::Look(l) => {
            let (l, u) = match l {
                Look::Start => (L::Start, false),
                Look::End => (L::End, false),
                Look::StartLF => (L::StartLF, false),
                Look::EndLF => (L::EndLF, false),
                Look::StartCRLF => (L::StartCRLF, false),
                Look::EndCRLF => (L::EndCRLF, false),
                Look::WordAscii => (L::Word, false),
                Look::WordAsciiNegate => (L::NotWord, false),
                Look::WordUnicode => (L::Word, true),
                Look::WordUnicodeNegate => (L::NotWord, true),
                Look::WordStartAscii => (L::WordStart, false),
                Look::WordEndAscii => (L::WordEnd, false),
                Look::WordStartUnicode => (L::WordStart, true),
                Look::WordEndUnicode => (L::WordEnd, true),
                Look::WordStartHalfAscii => (L::WordStartHalf, false),
                Look::WordEndHalfAscii => (L::WordEndHalf, false),
                Look::WordStartHalfUnicode => (L::WordStartHalf, true),
                Look::WordEndHalfUnicode => (L::WordEndHalf, true),
            };
            P::Look(l, u)
        }
        HirKind::Repetition(r) => {
            P::Rep(Box::new(from_hir(&r.sub)?), r.min, r.max.unwrap_or(u32::MAX))
        }
        HirKind::Capture(c) => {
            if c.name.as_deref() == Some("stop") {
                return None;
            }
            from_hir(&c.sub)?
        }
        HirKind::Concat(v) => P::Cat(v.iter().map(from_hir).collect::<Option<_>>()?),
        HirKind::Alternation(v) => P::Alt(v.iter().map(from_hir).collect::<Option<_>>()?),
    })
}

/// A pattern written down together with its meaning.
#[derive(Clone, Debug)]
pub struct Pt {
    pub s: String,
    pub p: P,
    /// 0 alternation, 1 concatenation, 2 repetition, 3 atom
    pub prec: u8,
}

pub fn atom(s: &str, p: P) -> Pt {
    Pt { s: s.into(), p, prec: 3 }
}
fn grp(t: &Pt, need: u8) -> String {
    if t.prec >= need {
        t.s.clone()
    } else {
        format!("(?:{})", t.s)
    }
}

pub const POST: [(&str, u32, u32); 10] = [
    ("*", 0, u32::MAX),
    ("+", 1, u32::MAX),
    ("?", 0, 1),
    ("*?", 0, u32::MAX),
    ("+?", 1, u32::MAX),
    ("??", 0, 1),
    ("{2}", 2, 2),
    ("{1,3}", 1, 3),
    ("{0,2}?", 0, 2),
    ("{2,}", 2, u32::MAX),
];
pub const WRAPS: [(&str, &str); 3] = [("(", ")"), ("(?:", ")"), ("(?P<n>", ")")];
pub const N_UN: usize = POST.len() + 2;

pub fn un(i: usize, t: &Pt) -> Pt {
    if i < POST.len() {
        let (s, a, b) = POST[i];
        Pt { s: format!("{}{}", grp(t, 3), s), p: P::Rep(Box::new(t.p.clone()), a, b), prec: 2 }
    } else {
        let (a, b) = WRAPS[i - POST.len()];
        Pt { s: format!("{a}{}{b}", t.s), p: t.p.clone(), prec: 3 }
    }
}
pub fn cat(a: &Pt, b: &Pt) -> Pt {
    Pt { s: format!("{}{}", grp(a, 1), grp(b, 1)), p: P::Cat(vec![a.p.clone(), b.p.clone()]), prec: 1 }
}
pub fn alt(a: &Pt, b: &Pt) -> Pt {
    Pt { s: format!("{}|{}", a.s, b.s), p: P::Alt(vec![a.p.clone(), b.p.clone()]), prec: 0 }
}

/// All patterns up to a size over given atoms.
pub struct PtPool {
    pub by_size: Vec<Vec<Pt>>,
}
impl PtPool {
    pub fn new(atoms: Vec<Pt>, max: usize) -> PtPool {
        let mut p = PtPool { by_size: vec![vec![], atoms] };
        for n in 2..=max {
            let c = p.count(n);
            let v = (0..c).map(|i| p.get(n, i)).collect();
            p.by_size.push(v);
        }
        p
    }
    pub fn count(&self, n: usize) -> u64 {
        if n == 1 {
            return self.by_size[1].len() as u64;
        }
        let mut c = (N_UN * self.by_size[n - 1].len()) as u64;
        for i in 1..n - 1 {
            c += (2 * self.by_size[i].len() * self.by_size[n - 1 - i].len()) as u64;
        }
        c
    }
    pub fn get(&self, n: usize, mut i: u64) -> Pt {
        if n == 1 {
            return self.by_size[1][i as usize].clone();
        }
        let l = self.by_size[n - 1].len() as u64;
        if i < N_UN as u64 * l {
            return un((i / l) as usize, &self.by_size[n - 1][(i % l) as usize]);
        }
        i -= N_UN as u64 * l;
        for k in 1..n - 1 {
            let (x, y) = (self.by_size[k].len() as u64, self.by_size[n - 1 - k].len() as u64);
            if i < 2 * x * y {
                let r = i % (x * y);
                let (a, b) = (&self.by_size[k][(r / y) as usize], &self.by_size[n - 1 - k][(r % y) as usize]);
                return if i < x * y { cat(a, b) } else { alt(a, b) };
            }
            i -= 2 * x * y;
        }
        panic!("index out of range")
    }
    pub fn all(&self) -> Vec<Pt> {
        self.by_size.iter().flatten().cloned().collect()
    }
}

pub fn dot() -> P {
    P::Uni(utf8::complement(&[(10, 10)]))
}
pub fn uni(r: &[(u32, u32)]) -> P {
    P::Uni(r.to_vec())
}
pub fn chars(s: &str) -> P {
    P::Uni(s.chars().map(|c| (c as u32, c as u32)).collect())
}
pub fn plit(s: &str) -> P {
    P::Lit(s.as_bytes().to_vec())
}
