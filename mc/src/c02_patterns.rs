//! C02: patterns mean what the syntax says; assertions that are not supported are refused.

use crate::c03_lookahead::{run_la, LaCase};
use crate::explore::*;
use crate::families::Refs;
use crate::lang::{Dfa, Part};
use crate::pat::*;
use crate::run::*;
use crate::term::{bset, Term};
use crate::utf8;
use crate::util::*;
use derivre::{Regex, RegexAst, RegexBuilder};
use std::sync::Arc;

/// atoms without assertions
pub fn atoms() -> Vec<Pt> {
    vec![
        atom("a", plit("a")),
        atom("b", plit("b")),
        atom(".", dot()),
        Pt { s: "".into(), p: P::Eps, prec: 1 },
        atom("[ab]", chars("ab")),
        atom("[^a]", uni(&utf8::complement(&[(97, 97)]))),
        atom("\u{e9}", plit("\u{e9}")),
        atom("(?s:.)", uni(&[(0, 0x10FFFF)])),
        atom("(?i:k)", chars("kK\u{212a}")),
        atom("\\n", plit("\n")),
        atom("(?-u:\\d)", pset(|b| b.is_ascii_digit())),
    ]
}
pub fn atoms_core() -> Vec<Pt> {
    vec![
        atom("a", plit("a")),
        atom("b", plit("b")),
        atom(".", dot()),
        Pt { s: "".into(), p: P::Eps, prec: 1 },
    ]
}
pub fn atoms_more() -> Vec<Pt> {
    let ascii_word = |b: u8| b.is_ascii_alphanumeric() || b == b'_';
    vec![
        atom("\\x61", plit("a")),
        atom("\\x{20ac}", plit("\u{20ac}")),
        atom("\\u{1F600}", plit("\u{1f600}")),
        atom("\\u0041", plit("A")),
        atom("\\.", plit(".")),
        atom("[.]", plit(".")),
        atom("\\t", plit("\t")),
        atom("[a-c]", uni(&[(97, 99)])),
        atom("[^a-c]", uni(&utf8::complement(&[(97, 99)]))),
        atom("[a-d&&[^b]]", chars("acd")),
        atom("[a-d--b]", chars("acd")),
        atom("[a-c~~b-d]", chars("ad")),
        atom("[]a]", chars("]a")),
        atom("[a-]", chars("a-")),
        atom("[[:digit:]]", uni(&[(48, 57)])),
        atom("[[:^digit:]]", uni(&utf8::complement(&[(48, 57)]))),
        atom("[\u{3b1}-\u{3c9}]", uni(&[(0x3b1, 0x3c9)])),
        atom("[\u{e9}a]", chars("\u{e9}a")),
        atom("(?-u:\\w)", pset(ascii_word)),
        atom("(?-u:[a-c])", pset(|b| (97..=99).contains(&b))),
        atom("(?i:a)", chars("aA")),
        atom("(?i-u:k)", pset(|b| b == b'k' || b == b'K')),
        atom("(?i:s)", chars("sS\u{17f}")),
        atom("(?i:ab)", P::Cat(vec![chars("aA"), chars("bB")])),
        atom("(?i:[^k])", uni(&utf8::complement(&[(0x4b, 0x4b), (0x6b, 0x6b), (0x212a, 0x212a)]))),
        atom("(?x: a b # c\n )", plit("ab")),
        atom("(?U:a*)", P::Rep(Box::new(plit("a")), 0, u32::MAX)),
        atom("(?R:.)", uni(&utf8::complement(&[(10, 10), (13, 13)]))),
        atom("(?i:a(?-i:b))", P::Cat(vec![chars("aA"), plit("b")])),
        atom("\\P{any}", P::None),
        atom("[^\\s\\S]", P::None),
        atom("ab", plit("ab")),
        Pt { s: "ab|a".into(), p: P::Alt(vec![plit("ab"), plit("a")]), prec: 0 },
        Pt { s: "|a".into(), p: P::Alt(vec![P::Eps, plit("a")]), prec: 0 },
    ]
    .into_iter()
    .map(|mut t| {
        if t.s == "ab" {
            t.prec = 1
        }
        t
    })
    .collect()
}
pub fn looks() -> Vec<Pt> {
    let k = |s: &str, l: L, u: bool| atom(s, P::Look(l, u));
    vec![
        k("^", L::Start, false),
        k("$", L::End, false),
        k("\\b", L::Word, true),
        k("(?m:^)", L::StartLF, false),
        k("(?m:$)", L::EndLF, false),
        k("\\A", L::Start, false),
        k("\\z", L::End, false),
        k("\\B", L::NotWord, true),
        k("(?-u:\\b)", L::Word, false),
        k("(?-u:\\b{start})", L::WordStart, false),
        k("\\b{end}", L::WordEnd, true),
        k("\\b{start-half}", L::WordStartHalf, true),
        k("(?-u:\\b{end-half})", L::WordEndHalf, false),
        k("(?Rm:^)", L::StartCRLF, false),
        k("(?Rm:$)", L::EndCRLF, false),
    ]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PoolKind {
    Plain,
    Core,
    More,
    Looks,
    LooksAll,
}
const KINDS: [(&str, PoolKind); 5] = [
    ("plain", PoolKind::Plain),
    ("core", PoolKind::Core),
    ("more", PoolKind::More),
    ("looks", PoolKind::Looks),
    ("looksall", PoolKind::LooksAll),
];

pub fn pool(k: PoolKind, max: usize) -> PtPool {
    let a = match k {
        PoolKind::Plain => atoms(),
        PoolKind::Core => atoms_core(),
        PoolKind::More => {
            let mut v = atoms_core();
            v.extend(atoms_more());
            v
        }
        PoolKind::Looks => {
            let mut v = vec![atom("a", plit("a"))];
            v.extend(looks().into_iter().take(2));
            v.push(Pt { s: "".into(), p: P::Eps, prec: 1 });
            v
        }
        PoolKind::LooksAll => {
            let mut v = vec![atom("a", plit("a")), atom("\\n", plit("\n")), atom("[\\r.]", pset(|b| b == 13 || b == b'.'))];
            v.extend(looks());
            v
        }
    };
    PtPool::new(a, max)
}

pub const EDGES: u64 = 9;
pub fn edge(t: &Pt, v: u64) -> String {
    let g = if t.prec >= 1 { t.s.clone() } else { format!("(?:{})", t.s) };
    match v {
        0 => format!("^{g}"),
        1 => format!("{g}$"),
        2 => format!("^{g}$"),
        3 => format!("\\A{g}\\z"),
        4 => format!("(^{g})"),
        5 => format!("^(?:{g}$)"),
        6 => format!("(?:(^{g}))$"),
        7 => format!("^{g}|{g}$|^{g}$"),
        _ => format!("(?:{g})(?P<e>$)"),
    }
}

/// head (b1|...|bk) tail, the group in several spellings; branches hold anchors at their edges
pub fn frame(k: u32, mut i: u64) -> Pt {
    let c = |v: Vec<Pt>| {
        let s = v.iter().map(|t| t.s.as_str()).collect::<String>();
        Pt { s, p: P::Cat(v.into_iter().map(|t| t.p).collect()), prec: 1 }
    };
    let (st, en) = (|| atom("^", P::Look(L::Start, false)), || atom("$", P::Look(L::End, false)));
    let (a, b, x) = (|| atom("a", plit("a")), || atom("b", plit("b")), || atom("x", plit("x")));
    let eps = || Pt { s: "".into(), p: P::Eps, prec: 1 };
    let branch = |j: u64| match j {
        0 => eps(),
        1 => a(),
        2 => b(),
        3 => c(vec![a(), en()]),
        4 => c(vec![st(), b()]),
        5 => st(),
        6 => en(),
        7 => c(vec![st(), a(), en()]),
        8 => c(vec![a(), b()]),
        _ => c(vec![a(), atom("\\b", P::Look(L::Word, true))]),
    };
    let mut next = |n: u64| {
        let r = i % n;
        i /= n;
        r
    };
    let n = frame_branches(k);
    let bs: Vec<Pt> = (0..k).map(|_| branch(next(n))).collect();
    let group = Pt {
        s: bs.iter().map(|t| t.s.as_str()).collect::<Vec<_>>().join("|"),
        p: P::Alt(bs.into_iter().map(|t| t.p).collect()),
        prec: 0,
    };
    let h = match next(3) {
        0 => eps(),
        1 => x(),
        _ => st(),
    };
    let t = match next(3) {
        0 => eps(),
        1 => x(),
        _ => en(),
    };
    let g = match next(FRAME_WRAPS) {
        0 => un(POST.len() + 1, &group),
        1 => un(POST.len(), &group),
        2 => un(2, &group),
        3 => un(0, &group),
        _ => un(6, &group),
    };
    c(vec![h, g, t])
}
fn frame_branches(k: u32) -> u64 {
    if k < 4 { 10 } else { 7 }
}
const FRAME_WRAPS: u64 = 5;

#[derive(Clone)]
pub enum PCase {
    /// number of branches, index
    Frame(u32, u64),
    /// pool, size, index
    Own(PoolKind, usize, u64),
    /// pool, size, index, edge variant
    Edge(PoolKind, usize, u64, u64),
    /// A(?P<stop>B) from the core pool, both by global index
    Stop(u64, u64),
    /// checked against the parser's own reading of the pattern
    Listed(String),
    /// must be refused
    Bad(String),
}

pub struct Patterns {
    pools: Vec<(PoolKind, PtPool)>,
    stop: Vec<Pt>,
}

impl Patterns {
    pub fn new() -> Patterns {
        Patterns {
            pools: vec![
                (PoolKind::Plain, pool(PoolKind::Plain, 3)),
                (PoolKind::Core, pool(PoolKind::Core, 4)),
                (PoolKind::More, pool(PoolKind::More, 2)),
                (PoolKind::Looks, pool(PoolKind::Looks, 4)),
                (PoolKind::LooksAll, pool(PoolKind::LooksAll, 3)),
            ],
            stop: pool(PoolKind::Core, 3).all(),
        }
    }
    fn get(&self, k: PoolKind, n: usize, i: u64) -> Pt {
        self.pools.iter().find(|x| x.0 == k).unwrap().1.get(n, i)
    }
    fn fam(&self, k: PoolKind, n: usize) -> Fam<PCase> {
        let c = self.pools.iter().find(|x| x.0 == k).unwrap().1.count(n);
        Fam::new(&format!("{k:?}-{n}"), &format!("every pattern of size {n} over the {k:?} atoms"), c, move |i| {
            Some(PCase::Own(k, n, i))
        })
    }
    fn edges(&self, k: PoolKind, n: usize) -> Fam<PCase> {
        let c = self.pools.iter().find(|x| x.0 == k).unwrap().1.count(n) * EDGES;
        Fam::new(
            &format!("edges-{k:?}-{n}"),
            "anchors at the edges of every assertion-free pattern, in 9 spellings, must be accepted and have no effect",
            c,
            move |i| Some(PCase::Edge(k, n, i / EDGES, i % EDGES)),
        )
    }
}

pub fn to_term(p: &P) -> Term {
    match p {
        P::Eps => Term::Eps,
        P::None => Term::None,
        P::Lit(v) => Term::Lit(v.clone()),
        P::Set(s) => Term::Set(s.clone()),
        P::Uni(r) => Term::Uni(r.clone()),
        P::Look(..) => panic!("assertion"),
        P::Rep(x, a, b) => Term::Rep(Box::new(to_term(x)), *a, *b),
        P::Cat(v) => Term::Cat(v.iter().map(to_term).collect()),
        P::Alt(v) => Term::Or(v.iter().map(to_term).collect()),
    }
}

/// the ASCII restriction, for assertions whose Unicode meaning is not modelled
fn explore_ascii(rx: &mut Regex, d: &Dfa, p: &Part, st: &mut Stats) -> Result<(), String> {
    let bytes: Vec<u8> = p.members.iter().filter_map(|m| m.iter().copied().find(|&b| b < 0x80)).collect();
    let s0 = rx.initial_state();
    let mut seen = std::collections::HashSet::new();
    let mut todo = vec![(s0, 0u32, vec![])];
    seen.insert((s0.as_u32(), 0u32));
    while let Some((s, q, path)) = todo.pop() {
        st.states += 1;
        if rx.is_accepting(s) != d.acc[q as usize] {
            return Err(format!("after {}: accepts = {}", show_bytes(&path), rx.is_accepting(s)));
        }
        if seen.len() > 20_000 {
            st.capped += 1;
            break;
        }
        for &b in &bytes {
            let t = rx.transition(s, b);
            let qt = d.step(q, p.class_of[b as usize] as usize);
            st.transitions += 1;
            if seen.insert((t.as_u32(), qt)) {
                let mut np = path.clone();
                np.push(b);
                todo.push((t, qt, np));
            }
        }
    }
    Ok(())
}

pub fn check_rx(rx: &mut Regex, p: &P, d: &Dfa, part: &Part, st: &mut Stats) -> Result<(), String> {
    if p.has_unicode_look() {
        return explore_ascii(rx, d, part, st);
    }
    let o = Opts { bytes: Bytes::Reps, mon: Mon { acc: true, dead: true, len: true, ..MON0 }, cap: 60_000 };
    let x = explore(rx, d, part, &o)?;
    x.record(st);
    Ok(())
}

/// All ways of compiling a pattern must agree with each other and with the meaning.
pub fn check_pattern(s: &str, p: &P, must: bool, st: &mut Stats) -> Result<(), String> {
    let part = p.part();
    let mut rx = match Regex::new(s) {
        Ok(rx) => rx,
        Err(e) => {
            if must {
                return Err(format!("pattern {s:?} refused: {e}"));
            }
            st.add("refused", 1);
            if RegexBuilder::new().mk_regex(s).is_ok() || RegexBuilder::new().mk(&RegexAst::Regex(s.into())).is_ok() {
                return Err(format!("pattern {s:?} refused by Regex::new but not by the builder"));
            }
            return Ok(());
        }
    };
    let d = p.dfa(&part);
    check_rx(&mut rx, p, &d, &part, st).map_err(|m| format!("pattern {s:?}: {m}"))?;
    let mut b = RegexBuilder::new();
    let e = b.mk_regex(s).map_err(|e| format!("pattern {s:?} refused by mk_regex only: {e}"))?;
    if b.is_nullable(e) != d.acc[0] {
        return Err(format!("pattern {s:?}: is_nullable = {}", b.is_nullable(e)));
    }
    let mut rx2 = b.to_regex(e);
    check_rx(&mut rx2, p, &d, &part, st).map_err(|m| format!("pattern {s:?} via mk_regex: {m}"))?;
    // as part of a larger expression
    let x = b
        .mk(&RegexAst::Concat(vec![RegexAst::Byte(b'<'), RegexAst::Regex(s.into()), RegexAst::Byte(b'>')]))
        .map_err(|e| format!("pattern {s:?} refused inside an expression: {e}"))?;
    let w = P::Cat(vec![plit("<"), P::Alt(vec![p.clone()]), plit(">")]);
    if !p.has_look() {
        let part = w.part();
        let d = w.dfa(&part);
        let mut rx3 = b.to_regex(x);
        check_rx(&mut rx3, &w, &d, &part, st).map_err(|m| format!("<{s:?}>: {m}"))?;
    }
    st.outcome(&(&d.trans, &d.acc));
    Ok(())
}

pub fn listed() -> Vec<&'static str> {
    vec![
        "a.*b", "(a|b)*abb", "(?:a|ab)(?:c|bcd)(?:d*)", "(a+|b+)+c", "((a*)*)*b", "[a-z]+@[a-z]+\\.(com|org)", "\\d{1,3}(\\.\\d{1,3}){3}",
        "\\w+", "\\W", "\\s*\\S\\s*", "\\D\\d", "\\pL\\pN?", "\\p{Greek}+", "\\P{Greek}", "[\\p{Greek}&&\\p{Lu}]", "\\p{L}\\p{M}*", "[^\\w\\s]",
        "(?i)stra\u{df}e", "(?i)\u{3c3}\u{3a3}\u{3c2}", "(?i)[a-z]", "(?i)\u{e9}\u{c9}", "(?i)\\x{1E9E}", "(?s).", "(?s).{2,3}", "(?x) a  b # comment\n c",
        "(?x)[ a ]", "(?U)a+b*?", "(?-u)[a-z]+", "(?-u)a\\w", "(?i-u)[k-s]", "(?m)a", "(?R).", "(?sR).", "x{0}", "x{0,0}y", "(x{2}){3}", "(x{0,2}y){2,3}", "a{,3}",
        "(a{1,2}){1,2}", "(|a){3}", "(|a)*", "(a|)+b", "()", "()*", "(()|a)()", "a||b", "[[:alpha:]_][[:alnum:]_]*", "[[:^space:]]", "[a&&b]", "[a-f&&c-z--e]",
        "[\\d\\-x]", "[\\]\\[]", "[\\x00-\\x1f]", "[^\\x00-\\x7f]", "[\\u{80}-\\u{7ff}]", "[\\u{800}-\\u{ffff}]", "[\\u{10000}-\\u{10ffff}]", "[\u{7f}-\u{80}]", "[\\u{7ff}-\\u{800}]",
        "[\\u{d7ff}-\\u{e000}]", "[\\u{ffff}-\\u{10000}]", "\u{1f600}{2}", "\\x{1F468}\u{200d}", "\\n|\\r\\n?", "\\a\\f\\t\\v", "\\077|\\x7F", "\\Qa.b\\E|q", "\"([^\"\\\\]|\\\\.)*\"",
        "/\\*([^*]|\\*+[^*/])*\\*+/", "-?(0|[1-9]\\d*)(\\.\\d+)?([eE][+-]?\\d+)?", "(true|false|null)", "(foo|foobar|foobaz|fo|f)*x?", "(a|b|c|d|ab|cd|abcd)+", "((a|b)(c|d)){2}",
        "(?i:(?-i:a)b)c", "(?i)a(?-i)b(?i)c", "(?s:(?-s:.).)", "((?i)a)b", "a(?i)|b", "(?x: a (?-x: b )c )", "(?P<x>a)(?P<y>b)", "(?<n>a)", "[a-zA-Z0-9_.+-]{1,4}", "(.)(.)", "(?:.|\\n){2}",
        "\\p{sc=Greek}", "\\p{Script_Extensions=Latin}", "\\p{Emoji}", "\\p{gc=Nd}", "\\p{Age=3.0}", "\\p{Alphabetic}", "\\p{wb=Numeric}", "[[:word:]--[[:digit:]]]", "[\\w~~\\d]", "[[:nope:]]",
        // assertions in all positions: refused or exact
        "(?m)^a$", "(?m)^a\\n^b$", "a\\b", "\\ba", "\\Ba", "a\\Bb", "a\\b b", "^a^b", "a$b", "a$$", "^^a", "(^a|b)c", "(^|x)a", "a($|x)", "(a|^)b", "(^a)+", "(^a)*", "(^a)?b", "(a$)*", "(a$)+", "(a$)?", "x(^a)", "(a$)x",
        "^*a", "^+a", "a$?", "(?:^){2}a", "a(?:$){0,3}", "(^)", "($)", "^$", "$^", "^|$", "(|^)a", "a(|$)", "(?:^|a)*b", "(a|b$)c", "(?:a^)|b", "^(a|^b)$", "^(a$|b)$", "(^a$)", "((^)a($))", "(x|(y|^)z)", "^a|b|c$", "\\Aa\\z", "a\\zb", "a\\Ab",
        "(?m)$", "(?Rm)^a$", "\\b{start}a", "a\\b{end}", "(?-u)\\ba\\b", "(?-u)a\\Bb", "\\b", "\\B", "^\\b", "\\b$", "(\\b|a)", "(?:\\b)*", "a*\\b", "(?:a|\\b)b", "[a-z]+\\b", "(a\\b)|b",
    ]
}
pub fn bad() -> Vec<&'static str> {
    vec![
        "(", ")", "(a", "a)", "[", "[a", "[b-a]", "*", "+a", "?", "a{2,1}", "{1}", "\\", "(?", "(?P<n", "(?P<n>a", "(?z)a", "\\p{Nope}", "\\pX1{", "(?P<a>x)(?P<a>y)", "\\x{110000}",
        "\\x{d800}", "(?-u:\\xff)", "(?-u).", "(?-u)[^a]", "(?-u:\\W)", "a{99999999999}", "(?=a)", "(?!a)", "(?<=a)b", "(?<!a)b", "\\1", "(a)\\1", "\\u{zz}", "\\8", "[a-\\d]", "(?i", "(?i-)", "(?--i)", "[a--", "\\c",
    ]
}

/// Patterns in which one thing is long.
fn long_patterns(tier: Tier) -> Vec<String> {
    let mut v = vec![];
    let more: &[usize] = tier.pick(&[100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025], &[100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097]);
    for n in (1..=66usize).chain(more.iter().copied()) {
        let word: String = (0..n).map(|i| if i * i / 3 % 2 == 0 { 'a' } else { 'b' }).collect();
        let odd: String = (0..n).map(|i| ['a', '\u{e9}', '\u{20ac}', '\u{1f600}'][i * i % 7 % 4]).collect();
        v.push(word.clone());
        v.push(odd.clone());
        v.push(format!("x|{word}y*"));
        v.push(format!("(?i:{word})"));
        v.push(format!("^{word}$"));
        if n > 600 {
            continue;
        }
        v.push(format!("(?:{word})*c"));
        v.push(format!("[ab]*{odd}"));
        // n classes, n optional parts, n alternatives, n members
        v.push("[ab]".repeat(n) + "c");
        if n <= 66 {
            v.push(format!("(?:[ab]|c{word}){{{n}}}"));
        }
        v.push(format!("[ab]{{{n},}}"));
        if n <= 66 {
            v.push("a?".repeat(n) + "b");
            v.push("(?:a|b*)".repeat(n));
        }
        v.push((0..n).map(|i| word[..i].to_string()).collect::<Vec<_>>().join("|"));
        v.push(format!("(?:{})d*", (0..n).map(|i| format!("{}c", &word[i..])).take(40).collect::<Vec<_>>().join("|")));
        let members: String = (0..n as u32).map(|i| char::from_u32(0x100 + i * 37).unwrap()).collect();
        v.push(format!("[{members}]"));
        v.push(format!("[^{members}]"));
        v.push((0..n as u32).map(|i| format!("\\x{{{:x}}}", 0x100 + i * 37)).collect::<Vec<_>>().join("|"));
        if n <= 100 {
            v.push("(".repeat(n) + "ab" + &")".repeat(n));
            v.push("(a".repeat(n) + &"|b)".repeat(n));
            v.push("(?:a|".repeat(n) + &"c)b".repeat(n));
        }
    }
    v
}

impl Check for Patterns {
    type Case = PCase;
    type Scratch = Refs;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn scratch(&self) -> Refs {
        Refs::new()
    }
    fn families(&self, tier: Tier) -> Vec<Fam<PCase>> {
        let mut v = vec![];
        v.push(Fam::list(
            "listed",
            "hand-written patterns against the parser's reading of them",
            listed().into_iter().map(|s| PCase::Listed(s.into())).collect(),
        ));
        v.push(Fam::list("refused", "patterns that must be refused", bad().into_iter().map(|s| PCase::Bad(s.into())).collect()));
        let mut l = vec![];
        for n in names() {
            for p in ["P", ""] {
                // as prefix matches go, the group alone, inside a repetition, and in the middle
                l.push(PCase::Listed(format!("(?{p}<{n}>a|ab)")));
                l.push(PCase::Listed(format!("x(?{p}<{n}>a*|)b?(?P<q>b)")));
            }
            l.push(PCase::Listed(format!("((?P<{n}>a|ab)c)*")));
        }
        v.push(Fam::list("group-names", "names of groups close to the one that stands for lookahead", l));
        v.push(Fam::list("long", "literals, classes, alternations, sequences, nested groups and counts of every length up to 66 and around larger powers of two", long_patterns(tier).into_iter().map(PCase::Listed).collect()));
        for n in 1..=3 {
            v.push(self.fam(PoolKind::Plain, n));
            v.push(self.fam(PoolKind::LooksAll, n));
        }
        for n in 1..=3 {
            v.push(self.fam(PoolKind::More, n));
        }
        for n in 3..=tier.pick(4, 5) {
            v.push(self.fam(PoolKind::Core, n));
        }
        for n in 1..=5 {
            v.push(self.fam(PoolKind::Looks, n));
        }
        for n in 1..=3 {
            v.push(self.edges(PoolKind::Plain, n));
        }
        v.push(self.edges(PoolKind::More, 1));
        v.push(self.edges(PoolKind::Core, 3));
        if tier == Tier::Thorough {
            v.push(self.fam(PoolKind::Plain, 4));
            v.push(self.fam(PoolKind::LooksAll, 4));
            v.push(self.edges(PoolKind::Core, 4));
        }
        for k in 1..=tier.pick(4u32, 5) {
            let n = frame_branches(k).pow(k) * 9 * FRAME_WRAPS;
            v.push(Fam::new(
                &format!("frames-{k}"),
                "an alternation whose branches have anchors at their edges, in front of, behind and between other things, in five groupings",
                n,
                move |i| Some(PCase::Frame(k, i)),
            ));
        }
        let n = self.stop.len() as u64;
        let m = tier.pick(160, n);
        v.push(Fam::new("stop", "A(?P<stop>B) patterns from the core pool", m * m, move |i| {
            // the smallest m patterns on both sides
            Some(PCase::Stop(i / m, i % m))
        }));
        v
    }
    fn text(&self, c: &PCase) -> String {
        let k = |k: &PoolKind| KINDS.iter().find(|x| x.1 == *k).unwrap().0;
        match c {
            PCase::Own(a, n, i) => format!("own {} {n} {i} {:?}", k(a), self.get(*a, *n, *i).s),
            PCase::Edge(a, n, i, v) => format!("edge {} {n} {i} {v} {:?}", k(a), edge(&self.get(*a, *n, *i), *v)),
            PCase::Frame(k, i) => format!("frame {k} {i} {:?}", frame(*k, *i).s),
            PCase::Stop(a, b) => format!("stop {a} {b} {:?}", stop_pattern(&self.stop, *a, *b)),
            PCase::Listed(s) => format!("listed {}", hex(s.as_bytes())),
            PCase::Bad(s) => format!("bad {}", hex(s.as_bytes())),
        }
    }
    fn parse(&self, s: &str) -> PCase {
        let w: Vec<&str> = s.split(' ').collect();
        let k = |s: &str| KINDS.iter().find(|x| x.0 == s).unwrap().1;
        let num = |i: usize| w[i].parse::<u64>().unwrap();
        match w[0] {
            "own" => PCase::Own(k(w[1]), num(2) as usize, num(3)),
            "edge" => PCase::Edge(k(w[1]), num(2) as usize, num(3), num(4)),
            "frame" => PCase::Frame(num(1) as u32, num(2)),
            "stop" => PCase::Stop(num(1), num(2)),
            "listed" => PCase::Listed(String::from_utf8(unhex(w.get(1).unwrap_or(&""))).unwrap()),
            _ => PCase::Bad(String::from_utf8(unhex(w.get(1).unwrap_or(&""))).unwrap()),
        }
    }
    fn prelude(&self, _: Tier, st: &mut Stats) -> Result<(), String> {
        st.add("utf8_reference_checked_scalars", utf8::validate()?);
        // the two independent readings of a pattern agree
        for (_, pool) in &self.pools {
            for t in pool.by_size.iter().take(3).flatten() {
                let h = regex_syntax::ParserBuilder::new().build().parse(&t.s).map_err(|e| format!("{:?}: {e}", t.s))?;
                let q = from_hir(&h).unwrap();
                let w = P::Cat(vec![t.p.clone(), q.clone()]);
                let part = w.part();
                if t.p.dfa(&part) != q.dfa(&part) {
                    return Err(format!("pattern {:?}: reference and parser disagree", t.s));
                }
                st.add("reference_patterns_cross_checked", 1);
            }
        }
        Ok(())
    }
    fn run(&self, c: &PCase, w: &mut Refs, st: &mut Stats) -> Result<(), String> {
        match c {
            PCase::Own(k, n, i) => {
                let t = self.get(*k, *n, *i);
                check_pattern(&t.s, &t.p, !t.p.has_look(), st)
            }
            PCase::Frame(k, i) => {
                let t = frame(*k, *i);
                check_pattern(&t.s, &t.p, !t.p.has_look(), st)
            }
            PCase::Edge(k, n, i, v) => {
                let t = self.get(*k, *n, *i);
                check_pattern(&edge(&t, *v), &t.p, true, st)
            }
            PCase::Stop(a, b) => {
                let s = stop_pattern(&self.stop, *a, *b);
                let t = Term::Cat(vec![
                    to_term(&self.stop[*a as usize].p),
                    Term::La(Box::new(to_term(&self.stop[*b as usize].p))),
                ]);
                // also: '.' is widened to bytes to keep the product small
                let lc = LaCase {
                    term: Term::Rx(s, Box::new(t)),
                    depth: 6,
                    bytes: vec![b'a', b'b', b'\n', 0xc3, 0xa9],
                    path: vec![],
                    part: Some(stop_part()),
                };
                run_la(&lc, w, st, &Mon { acc: true, len: true, ..MON0 })
            }
            PCase::Listed(s) => {
                let h = match regex_syntax::ParserBuilder::new().build().parse(s) {
                    Ok(h) => h,
                    Err(_) => {
                        return if Regex::new(s).is_ok() { Err(format!("malformed pattern {s:?} was accepted")) } else { Ok(()) }
                    }
                };
                let p = from_hir(&h).expect("no lookahead in the list");
                check_pattern(s, &p, !p.has_look(), st)
            }
            PCase::Bad(s) => {
                if Regex::new(s).is_ok() || RegexBuilder::new().mk_regex(s).is_ok() {
                    return Err(format!("malformed pattern {s:?} was accepted"));
                }
                st.add("refused", 1);
                Ok(())
            }
        }
    }
    fn rule(&self) -> String {
        "every pattern string over the listed atoms and operators up to a size, generated together with its meaning; \
         a Thompson automaton with position-aware assertions is determinised independently and its product with the \
         compiled matcher explored to a fixpoint; patterns holding assertions must be refused or be exact, patterns \
         with anchors at the edges must be accepted"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the hand-written patterns are read by the regex-syntax crate (the same parser the library uses)".into(),
            "Unicode word-boundary assertions are compared on ASCII text only, if they are accepted at all".into(),
        ]
    }
}

fn stop_part() -> Arc<Part> {
    // refines every set in the core atoms: a, b, newline and the UTF-8 structure of '.'
    let mut v = vec![bset(|b| b == b'a'), bset(|b| b == b'b'), bset(|b| b == b'\n')];
    v.extend(utf8::byte_dfa(&utf8::complement(&[(10, 10)])).column_sets());
    Arc::new(Part::from_sets(&v))
}

fn stop_pattern(p: &[Pt], a: u64, b: u64) -> String {
    let (x, y) = (a, b);
    let (a, b) = (&p[a as usize], &p[b as usize]);
    let g = if a.prec >= 1 { a.s.clone() } else { format!("(?:{})", a.s) };
    // both spellings of a named group
    format!("{g}(?{}<stop>{})", if (x ^ y) & 1 == 0 { "P" } else { "" }, b.s)
}

/// Group names that are not the one that stands for lookahead.
fn names() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut grow: Vec<String> = vec![String::new()];
    for _ in 0..4 {
        grow = grow.iter().flat_map(|s| "stop".chars().map(move |c| format!("{s}{c}"))).collect();
        v.extend(grow.clone());
    }
    for m in 1..16u32 {
        v.push("stop".chars().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect());
    }
    for c in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.[]".chars() {
        v.push(format!("stop{c}"));
        for at in 0..4 {
            v.push(format!("{}{c}{}", &"stop"[..at], &"stop"[at..]));
        }
    }
    for s in ["stopstop", "nonstop", "stop_token", "stop1", "prestop", "lookahead", "la", "end", "\u{e9}stop", "stop\u{e9}", "\u{17f}top"] {
        v.push(s.into());
    }
    v.retain(|s| s != "stop");
    v.sort();
    v.dedup();
    v
}
