//! Rendering of expressions and syntax trees.

use derivre::raw::ExprSet;
use derivre::{AlphabetInfo, ExprRef, RegexAst, RegexBuilder};
use mc::families::*;
use mc::lang::INF;
use mc::run::*;
use mc::term::*;
use std::collections::HashMap;

#[derive(Clone)]
pub enum RCase {
    /// all expressions of one set print differently; (pool kind, slice)
    Distinct(u32, u64),
    /// every limit on one expression
    Limits(Term),
    /// shared graphs / towers: (shape, depth)
    Shape(u32, u64),
    /// a tower printed with a large limit, on an 8 MB stack: (shape, depth, limit)
    Big(u32, u64, usize),
    /// syntax tree printing with odd leaves
    Tree(u32),
    /// all syntax trees up to a size: how many nodes
    Texts(usize),
    /// raw sets over an alphabet of n symbols
    /// compressed sets over that many bytes, with the single bytes too
    Symbols(usize, bool),
    Alpha(usize),
}

pub struct Render;

/// Longest text of a single leaf: a byte set with alternating members, each "'\u{7f}';"-like.
const LEAF: usize = 256 * 8;

fn bound(max_len: usize, depth: usize) -> usize {
    // every level writes at least one character before the limit is reached, and at most
    // 32 more to close it afterwards
    max_len + LEAF + 32 * (depth.min(max_len + 1) + 2)
}

fn distinct(es: &ExprSet, st: &mut Stats) -> Result<(), String> {
    let mut m: HashMap<String, u32> = HashMap::new();
    for i in 1..es.len() as u32 {
        let e = ExprRef::new(i);
        if !es.is_valid(e) {
            return Err(format!("expression {i} below the size of the set is not valid"));
        }
        let s = es.expr_to_string_max_len(e, 1 << 20);
        if s.is_empty() {
            return Err(format!("expression {i} prints as nothing"));
        }
        st.transitions += 1;
        if let Some(j) = m.insert(s.clone(), i) {
            return Err(format!("expressions {j} and {i} both print as {s:?}"));
        }
        let d = es.expr_to_string(e);
        if d.len() > bound(1024, s.len()) {
            return Err(format!("default rendering of expression {i} is {} bytes long", d.len()));
        }
        // a rendering that is not cut is the full text
        if s.len() < 1024 && !d.contains('\u{2026}') && d != s {
            return Err(format!("renderings with different limits differ: {d:?} / {s:?}"));
        }
    }
    st.states += m.len() as u64;
    st.outcome(&m.len());
    Ok(())
}

/// The legend printed after an expression over a compressed alphabet: one line per symbol, with
/// the same text the bytes of that symbol have when printed as an ordinary byte set.
fn legend(alpha: &AlphabetInfo, es: &ExprSet, root: ExprRef, st: &mut Stats) -> Result<(), String> {
    let full = es.expr_to_string_with_info(root);
    let body = es.expr_to_string(root);
    let Some(info) = full.strip_prefix(&body) else {
        return Err(format!("the text with legend {full:?} does not start with the text without {body:?}"));
    };
    let mut plain = ExprSet::new(256);
    let mut classes = vec![vec![0u32; 8]; alpha.len()];
    let mut identity = true;
    for b in 0..=255u8 {
        let v = alpha.map(b);
        if v >= alpha.len() {
            return Err(format!("byte {b} maps to symbol {v} of {}", alpha.len()));
        }
        identity &= v == b as usize;
        classes[v][b as usize / 32] |= 1 << (b % 32);
    }
    st.transitions += classes.len() as u64;
    if identity && alpha.len() == 256 {
        return if info.trim().is_empty() { Ok(()) } else { Err(format!("a legend {info:?} for an alphabet of plain bytes")) };
    }
    let lines: Vec<&str> = info.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
    if lines.len() != classes.len() {
        return Err(format!("the legend has {} lines for {} symbols: {info:?}", lines.len(), classes.len()));
    }
    for (i, (l, c)) in lines.iter().zip(&classes).enumerate() {
        let e = plain.mk_byte_set(c);
        let want = plain.expr_to_string_max_len(e, 1 << 20);
        let Some((sym, text)) = l.split_once(": ") else {
            return Err(format!("legend line {l:?} has no symbol"));
        };
        let mut one = vec![0u32; es.alphabet_words()];
        one[i / 32] |= 1 << (i % 32);
        let mut es2 = es.clone();
        let se = es2.mk_byte_set(&one);
        // with a single symbol the symbol is the whole alphabet and prints as such
        if classes.len() > 1 && es2.expr_to_string(se) != sym {
            return Err(format!("symbol {i} is {sym:?} in the legend and {:?} in expressions", es2.expr_to_string(se)));
        }
        // the legend may leave out the brackets a set has inside an expression
        if text != want && Some(text) != want.strip_prefix('[').and_then(|w| w.strip_suffix(']')) {
            return Err(format!("the legend gives symbol {i} the bytes {text:?}, but they are {want:?}"));
        }
    }
    st.outcome(&lines.len());
    Ok(())
}

/// Leaves whose texts are easily mixed up.
fn text_leaves() -> Vec<RegexAst> {
    let mut v = vec![RegexAst::EmptyString, RegexAst::NoMatch, RegexAst::Or(vec![]), RegexAst::And(vec![]), RegexAst::Concat(vec![])];
    for s in ["", "a", "(a)", ")", "\"", "\\", "\n", "1", "a b", " (Or)", "\u{e9}", "..."] {
        v.push(RegexAst::Regex(s.into()));
        v.push(RegexAst::Literal(s.into()));
        v.push(RegexAst::ByteLiteral(s.as_bytes().to_vec()));
    }
    for b in [0u8, 1, b'1', b'a', b'b', b'\'', b'(', b')', b'-', 127, 128, 255] {
        v.push(RegexAst::Byte(b));
    }
    for f in [(0u8, 255u8), (0, 0), (b'a', b'b'), (b'a', b'c'), (1, 255), (0, 254), (128, 255)] {
        v.push(RegexAst::ByteSet((0..8u32).map(|w| (0..32).filter(|b| w * 32 + b >= f.0 as u32 && w * 32 + b <= f.1 as u32).map(|b| 1u32 << b).sum()).collect()));
    }
    for r in [1u32, 2, 10, 11, 12, 1000] {
        v.push(RegexAst::ExprRef(ExprRef::new(r)));
    }
    v
}

fn odd_literals() -> Vec<Term> {
    let mut v = vec![];
    let bytes: Vec<u8> = vec![
        b'\'', b'"', b'\\', b';', b'-', b'[', b']', b'(', b')', b' ', b'|', b'&', b'*', b'+', b'?', b'0', b'4', b'1', b's', b'a', b'A',
        b'n', b'u', b'{', b'}', b',', b'_', b'<', 0, 1, 0x0a, 0x1f, 0x7f, 0x80, 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xf0, 0xff,
    ];
    for &a in &bytes {
        v.push(byte(a));
        for &b in &bytes {
            v.push(Term::Lit(vec![a, b]));
            v.push(Term::Or(vec![byte(a), byte(b)]));
            v.push(Term::Cat(vec![byte(a), star(byte(b))]));
            v.push(Term::Cat(vec![star(byte(a)), byte(b)]));
            for &c in &bytes[..tri(&bytes)] {
                v.push(Term::Lit(vec![a, b, c]));
            }
        }
    }
    for s in ["\u{e9}", "\u{20ac}", "\u{1f600}", "\u{85}", "\u{2028}", "\u{2026}", "\u{b5}", "\u{ac}", "(\u{ac}a)", "\u{2205}", "a | b", "\\u{7f}", "C3 A9"] {
        v.push(Term::Txt(s.into()));
        v.push(Term::Txt(format!("{s}{s}")));
        v.push(Term::Cat(vec![star(byte(b'x')), Term::Txt(s.into()), star(byte(b'y'))]));
        v.push(not(Term::Txt(s.into())));
    }
    v
}
fn tri(b: &[u8]) -> usize {
    b.len().min(12)
}

const ECHO: u64 = 24;

/// Expressions together with the literals that spell (parts of) their own renderings.
fn echo(slice: u64) -> Result<Vec<Term>, String> {
    let lits: [&[u8]; 5] = [b"ab", b"q", b"x\"", b"\\", b"\xff"];
    let mid = [
        range(b'p', b'q'),
        star(byte(b'p')),
        rep(byte(b'p'), 1, INF),
        rep(byte(b'p'), 2, 3),
        Term::Or(vec![byte(b'p'), Term::Lit(b"rs".to_vec())]),
        Term::And(vec![star(byte(b'p')), not(byte(b'p'))]),
        not(byte(b'p')),
        pre(Term::Lit(b"pq".to_vec())),
        la(byte(b'p')),
        Term::Lit(vec![0xfe]),
        set(|b| b == b'p' || b == b'r'),
        any(),
    ];
    let mut base: Vec<Term> = Pool::new(leaves_core(), uns_full(), BINS.to_vec(), 2).all();
    for m in mid.iter() {
        base.push(m.clone());
        base.push(star(m.clone()));
        for a in lits {
            base.push(Term::Cat(vec![Term::Lit(a.to_vec()), m.clone()]));
            base.push(Term::Cat(vec![m.clone(), Term::Lit(a.to_vec())]));
            base.push(Term::Or(vec![Term::Lit(a.to_vec()), m.clone()]));
            for b in lits {
                base.push(Term::Cat(vec![Term::Lit(a.to_vec()), m.clone(), Term::Lit(b.to_vec())]));
                base.push(Term::Or(vec![Term::Lit(a.to_vec()), Term::Cat(vec![m.clone(), Term::Lit(b.to_vec())])]));
            }
        }
    }
    let base: Vec<Term> = base.into_iter().skip(slice as usize).step_by(ECHO as usize).collect();
    let mut b = RegexBuilder::new();
    let mut v = base.clone();
    for t in &base {
        let e = b.mk(&t.to_ast()).map_err(|e| format!("building failed: {e}"))?;
        let s = b.exprset().expr_to_string(e);
        let ends: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
        for (k, &i) in ends.iter().enumerate() {
            for &j in &ends[k + 1..] {
                v.push(Term::Lit(s[i..j].as_bytes().to_vec()));
            }
        }
    }
    Ok(v)
}

fn repeats() -> Vec<Term> {
    let mut v = vec![];
    let inner = vec![
        byte(b'a'),
        Term::Lit(b"ab".to_vec()),
        range(b'a', b'c'),
        Term::Or(vec![byte(b'a'), Term::Lit(b"bc".to_vec())]),
        not(byte(b'a')),
        Term::And(vec![not(byte(b'a')), not(byte(b'b'))]),
        star(Term::Lit(b"xy".to_vec())),
    ];
    for e in &inner {
        for lo in 0..4u32 {
            for hi in [lo, lo + 1, lo + 2, 11, 12, 21, 112, mc::lang::INF] {
                if hi >= lo {
                    let r = rep(e.clone(), lo, hi);
                    v.push(r.clone());
                    v.push(not(r.clone()));
                    v.push(rep(r.clone(), 2, 3));
                    v.push(Term::Cat(vec![r.clone(), byte(b'z')]));
                    v.push(Term::Or(vec![r.clone(), Term::Lit(b"zz".to_vec())]));
                    v.push(pre(r.clone()));
                    v.push(la(r.clone()));
                    v.push(Term::Cat(vec![byte(b'q'), la(r)]));
                }
            }
        }
    }
    v
}

/// exponentially large shared graphs and towers
fn shape(kind: u32, depth: u64) -> (ExprSet, ExprRef) {
    let mut b = RegexBuilder::new();
    let mut e = b.mk(&RegexAst::Or(vec![RegexAst::Byte(b'a'), RegexAst::ByteLiteral(b"bc".to_vec())])).unwrap();
    for i in 0..depth {
        let x = || RegexAst::ExprRef(e);
        let ast = match kind {
            0 => RegexAst::Repeat(Box::new(RegexAst::Concat(vec![x(), RegexAst::Byte(b'x'), x()])), 0, 2),
            1 => RegexAst::Not(Box::new(RegexAst::Concat(vec![x(), RegexAst::Byte(b'x'), x()]))),
            2 => RegexAst::Or(vec![
                RegexAst::Repeat(Box::new(x()), 2, 3),
                RegexAst::Concat(vec![RegexAst::Repeat(Box::new(x()), 3, 4), RegexAst::Byte(b'y')]),
            ]),
            3 => RegexAst::And(vec![
                RegexAst::Repeat(Box::new(x()), 2, 3),
                RegexAst::Not(Box::new(x())),
                RegexAst::Concat(vec![RegexAst::Repeat(Box::new(x()), 3, 4), RegexAst::Byte(b'y')]),
            ]),
            4 => RegexAst::Repeat(Box::new(RegexAst::Concat(vec![x(), RegexAst::Byte(b'q')])), 0, 1 + (i % 5) as u32),
            5 => RegexAst::Not(Box::new(RegexAst::Concat(vec![RegexAst::Byte(b'q'), x()]))),
            6 => RegexAst::Repeat(Box::new(RegexAst::Concat(vec![RegexAst::Byte(b'q'), x()])), 1_000_000_000, 4_000_000_000),
            _ => RegexAst::Concat(vec![
                RegexAst::Or(vec![RegexAst::Repeat(Box::new(x()), 0, 5), RegexAst::ByteLiteral(vec![0xff; 3])]),
                RegexAst::Byte(b'b'),
            ]),
        };
        e = b.mk(&ast).unwrap();
    }
    (b.exprset().clone(), e)
}

fn tree(kind: u32) -> (RegexAst, Option<ExprSet>) {
    let mut b = RegexBuilder::new();
    let r = b.mk_regex("a(b|c)*[x-z]").unwrap();
    let es = b.exprset().clone();
    let bx = |a: RegexAst| Box::new(a);
    let t = match kind / 2 {
        0 => RegexAst::ByteSet(vec![]),
        1 => RegexAst::ByteSet(vec![1; 7]),
        2 => RegexAst::ByteSet(vec![u32::MAX; 8]),
        3 => RegexAst::ByteSet(vec![0x5555_5555; 8]),
        4 => RegexAst::ByteSet(vec![u32::MAX; 9]),
        5 => RegexAst::ExprRef(r),
        6 => RegexAst::ExprRef(ExprRef::INVALID),
        7 => RegexAst::ExprRef(ExprRef::new(999_999)),
        8 => RegexAst::Regex("(((".into()),
        9 => RegexAst::ByteLiteral(vec![0xff, 0xc3, b'"', b'\n']),
        10 => RegexAst::Literal("\u{1f600}\"\n\\".into()),
        11 => RegexAst::Repeat(bx(RegexAst::EmptyString), 5, 2),
        12 => RegexAst::And(vec![]),
        13 => RegexAst::Or(vec![]),
        14 => RegexAst::Concat(vec![]),
        15 => RegexAst::Concat((0..=255).map(RegexAst::Byte).collect()),
        16 => RegexAst::Or((0..300).map(|i| RegexAst::Literal(format!("w{i}"))).collect()),
        17 => RegexAst::LookAhead(bx(RegexAst::Prefixes(bx(RegexAst::Not(bx(RegexAst::NoMatch)))))),
        18 => RegexAst::Concat(vec![RegexAst::ExprRef(r); 40]),
        19 => RegexAst::ExprRef(ExprRef::new(es.len() as u32)),
        20 => RegexAst::ExprRef(ExprRef::new(u32::MAX - 1)),
        21 => RegexAst::Literal(String::new()),
        _ => RegexAst::Not(bx(RegexAst::Regex("\u{e9}\u{2026}".repeat(5)))),
    };
    (t, if kind % 2 == 0 { None } else { Some(es) })
}
const TREES: u32 = 23 * 2;

fn check_tree(t: &RegexAst, es: Option<&ExprSet>, leaf: usize, st: &mut Stats) -> Result<(), String> {
    let mut full = String::new();
    t.write_to_str(&mut full, 1 << 20, es);
    let full2 = format!("{t:?}");
    if full2.len() > 512 + leaf + 64 {
        return Err(format!("Debug output of {} bytes", full2.len()));
    }
    let lims: Vec<usize> = (0..=full.len().min(400) + 2).chain([512, 1000, usize::MAX]).collect();
    for m in lims {
        let mut s = String::new();
        t.write_to_str(&mut s, m, es);
        st.transitions += 1;
        if s.len() > m.saturating_add(leaf + 64) {
            return Err(format!("limit {m}: output of {} bytes", s.len()));
        }
        // appending keeps what was there
        if m < 50 {
            let mut s = String::from("PRE");
            t.write_to_str(&mut s, m, es);
            if !s.starts_with("PRE") {
                return Err("existing text was overwritten".into());
            }
        }
        if m > full.len() + 3 && s != full {
            return Err(format!("limit {m} is above the full length, but the output differs: {s:?} / {full:?}"));
        }
    }
    st.outcome(&full);
    Ok(())
}

impl Check for Render {
    type Case = RCase;
    type Scratch = ();
    fn id(&self) -> &'static str {
        "C23"
    }
    fn scratch(&self) {}
    fn families(&self, tier: Tier) -> Vec<Fam<RCase>> {
        let mut fams = vec![];
        let mut v = vec![];
        for k in 0..6 {
            v.push(RCase::Distinct(k, 0));
        }
        v.push(RCase::Distinct(9, 0));
        for s in 0..ECHO {
            v.push(RCase::Distinct(8, s));
        }
        for s in 0..tier.pick(16, 64) {
            v.push(RCase::Distinct(6, s));
            v.push(RCase::Distinct(7, s));
        }
        fams.push(Fam::list("distinct", "all pairs of expressions of one expression set have different texts", v));
        fams.push(Fam::list(
            "alphabets",
            "single symbols and structured symbol sets over every alphabet size",
            (1..=256).map(RCase::Alpha).collect(),
        ));
        let mut v = vec![];
        for n in 1..=256 {
            v.push(RCase::Symbols(n, false));
            v.push(RCase::Symbols(n, true));
        }
        fams.push(Fam::list("symbols", "sets over every number of distinct bytes, compressed to symbols; all sets up to 6 bytes", v));
        let pool: Vec<Term> = Pool::new(leaves_full(), uns_full(), BINS.to_vec(), tier.pick(3, 4)).all();
        let mut v: Vec<RCase> = pool.into_iter().map(RCase::Limits).collect();
        v.extend(repeats().into_iter().map(RCase::Limits));
        v.extend(odd_literals().into_iter().step_by(tier.pick(7, 1)).map(RCase::Limits));
        fams.push(Fam::list("limits", "every length limit from 0 past the full length", v));
        let mut v = vec![];
        for k in 0..8 {
            for d in [1u64, 2, 3, 5, 10, 20, 40, 64, 100, 500, 3000] {
                // shared concatenations/unions inside unions grow quadratically when flattened
                v.push(RCase::Shape(k, d));
            }
            for d in tier.pick(vec![20_000u64], vec![20_000, 100_000, 300_000]) {
                if k == 4 || k == 5 {
                    v.push(RCase::Shape(k, d));
                }
            }
        }
        fams.push(Fam::list("shared-graphs", "expressions whose tree is exponentially large, and deep towers, at many limits", v));
        let mut v = vec![];
        for k in [4, 5] {
            for lim in [10_000, 20_000, 100_000] {
                v.push(RCase::Big(k, 300_000, lim));
            }
        }
        fams.push(Fam::list("deep-towers-large-limits", "towers of depth 300000 rendered with limits up to 100000, each in a process of its own", v));
        fams.push(Fam::list("tree-texts", "all syntax trees up to a number of nodes over odd leaves, compared pairwise", (1..=tier.pick(4, 5)).map(RCase::Texts).collect()));
        fams.push(Fam::list("trees", "syntax trees with odd leaves, with and without an expression set", (0..TREES).map(RCase::Tree).collect()));
        fams
    }
    fn case_timeout(&self) -> u64 {
        40
    }
    fn text(&self, c: &RCase) -> String {
        match c {
            RCase::Distinct(a, b) => format!("distinct {a} {b}"),
            RCase::Limits(t) => format!("limits {}", t.text()),
            RCase::Shape(a, b) => format!("shape {a} {b}"),
            RCase::Big(a, b, c) => format!("big {a} {b} {c}"),
            RCase::Tree(a) => format!("tree {a}"),
            RCase::Texts(a) => format!("texts {a}"),
            RCase::Alpha(a) => format!("alpha {a}"),
            RCase::Symbols(a, b) => format!("symbols {a} {}", *b as u8),
        }
    }
    fn parse(&self, s: &str) -> RCase {
        let (k, r) = s.split_once(' ').unwrap();
        let n = || r.split_whitespace().map(|x| x.parse().unwrap()).collect::<Vec<u64>>();
        match k {
            "distinct" => RCase::Distinct(n()[0] as u32, n()[1]),
            "limits" => RCase::Limits(Term::parse(r)),
            "shape" => RCase::Shape(n()[0] as u32, n()[1]),
            "big" => RCase::Big(n()[0] as u32, n()[1], n()[2] as usize),
            "tree" => RCase::Tree(n()[0] as u32),
            "texts" => RCase::Texts(n()[0] as usize),
            "symbols" => RCase::Symbols(n()[0] as usize, n()[1] != 0),
            _ => RCase::Alpha(n()[0] as usize),
        }
    }
    fn run(&self, c: &RCase, _: &mut (), st: &mut Stats) -> Result<(), String> {
        match c {
            RCase::Distinct(kind, slice) => {
                let mut b = RegexBuilder::new();
                let terms: Vec<Term> = match kind {
                    0 => Pool::new(leaves_full(), uns_full(), BINS.to_vec(), 3).all(),
                    1 => odd_literals(),
                    2 => repeats(),
                    3 => {
                        // all bytes, all adjacent pairs, ranges
                        let mut v = vec![];
                        for x in 0..=255u8 {
                            v.push(byte(x));
                            for y in [0, 1, x.wrapping_add(1), x.wrapping_add(2), x | 0x20, 0x7f, 0xff] {
                                v.push(range(x.min(y), x.max(y)));
                                v.push(set(move |b| b == x || b == y));
                                v.push(set(move |b| b != x && b != y));
                                v.push(Term::Lit(vec![x, y]));
                                v.push(Term::Lit(vec![y, x, y]));
                            }
                        }
                        v
                    }
                    9 => {
                        // all pairs of bounds from a list of numbers of every size
                        let mut ns: Vec<u32> = (0..13).chain([15, 16, 17, 31, 32, 33, 64, 99, 100, 101, 127, 128, 255, 256, 257, 998, 999, 1000, 1001, 1023, 1024, 4095, 4096, 9999, 10_000, 32_767, 32_768, 65_535, 65_536, 99_999, 100_000]).collect();
                        for k in [16_777_215u32, 16_777_216, 999_999, 1_000_000, 1_000_001, 2_000_000, 10_000_000, 1 << 20, i32::MAX as u32, 1 << 31, 1_000_000_000, u32::MAX / 10, u32::MAX - 1, u32::MAX] {
                            ns.extend([k - 1, k]);
                        }
                        ns.sort();
                        ns.dedup();
                        let mut v = vec![];
                        for &lo in &ns {
                            for &hi in &ns {
                                if lo <= hi {
                                    v.push(rep(byte(b'a'), lo, hi));
                                    v.push(rep(star(Term::Lit(b"ab".to_vec())), lo, hi));
                                    v.push(rep(range(b'a', b'b'), lo, hi));
                                }
                            }
                        }
                        v
                    }
                    4 => {
                        let mut v = repeats();
                        v.extend(odd_literals().into_iter().step_by(3));
                        v.extend(Pool::new(leaves_core(), uns_core(), BINS.to_vec(), 4).all());
                        v
                    }
                    5 => {
                        // lookaheads, also partly consumed ones (through the matcher's own expressions)
                        let mut v = vec![];
                        for t in Pool::new(leaves_full(), uns_core(), BINS.to_vec(), 2).all() {
                            v.push(la(t.clone()));
                            v.push(Term::Cat(vec![byte(b'a'), la(t.clone())]));
                            v.push(Term::Or(vec![la(t), byte(b'q')]));
                        }
                        v
                    }
                    8 => echo(*slice)?,
                    _ => {
                        // compressed sets: symbols instead of bytes
                        let p = Pool::new(leaves_full(), uns_full(), BINS.to_vec(), 3).all();
                        p.into_iter().skip(*slice as usize).step_by(64).collect()
                    }
                };
                let mut refs = vec![];
                for t in &terms {
                    refs.push(b.mk(&t.to_ast()).map_err(|e| format!("building failed: {e}"))?);
                }
                if *kind < 6 || *kind >= 8 {
                    distinct(b.exprset(), st)?;
                    if *kind == 5 {
                        // add derivatives
                        let mut es = b.exprset().clone();
                        let mut dc = derivre::raw::DerivCache::new();
                        for &r in &refs {
                            for x in [b'a', b'b', b'x'] {
                                let y = dc.derivative(&mut es, r, x);
                                dc.derivative(&mut es, y, b'a');
                            }
                        }
                        distinct(&es, st)?;
                    }
                } else {
                    let (alpha, mut es, roots) = AlphabetInfo::from_exprset(b.exprset(), &refs);
                    legend(&alpha, &es, roots[0], st)?;
                    if *kind == 7 {
                        let mut dc = derivre::raw::DerivCache::new();
                        let n = es.alphabet_size();
                        for r in roots {
                            for s in 0..n.min(3) {
                                dc.derivative(&mut es, r, s as u8);
                            }
                        }
                    }
                    distinct(&es, st)?;
                    es.expr_to_string_with_info(ExprRef::ANY_BYTE);
                }
            }
            RCase::Limits(t) => {
                let mut b = RegexBuilder::new();
                let ast = t.to_ast();
                let e = b.mk(&ast).map_err(|e| format!("building failed: {e}"))?;
                let es = b.exprset();
                let full = es.expr_to_string_max_len(e, usize::MAX);
                for m in (0..=full.len() + 2).chain([1024, 1 << 20]) {
                    let s = es.expr_to_string_max_len(e, m);
                    st.transitions += 1;
                    if s.len() > bound(m, t.size()) {
                        return Err(format!("limit {m}: {} bytes", s.len()));
                    }
                    if m > full.len() && s != full {
                        return Err(format!("limit {m} is above the full length, but the output differs: {s:?} / {full:?}"));
                    }
                }
                st.states += 1;
                check_tree(&ast, None, LEAF, st)?;
                check_tree(&ast, Some(es), LEAF, st)?;
                check_tree(&RegexAst::ExprRef(e), Some(es), LEAF + 400, st)?;
            }
            RCase::Shape(k, d) => {
                let (es, e) = shape(*k, *d);
                for m in [0usize, 1, 2, 3, 10, 50, 100, 511, 512, 1000, 1024, 4096, 8000] {
                    let s = es.expr_to_string_max_len(e, m);
                    st.transitions += 1;
                    if s.len() > bound(m, usize::MAX) {
                        return Err(format!("limit {m}: output of {} bytes", s.len()));
                    }
                }
                es.expr_to_string(e);
                es.expr_to_string_with_info(e);
                let mut s = String::new();
                RegexAst::Not(Box::new(RegexAst::ExprRef(e))).write_to_str(&mut s, 300, Some(&es));
                if s.len() > bound(300, usize::MAX) + 64 {
                    return Err(format!("tree with a reference, limit 300: output of {} bytes", s.len()));
                }
                st.states += es.len() as u64;
                st.outcome(&s);
            }
            RCase::Big(k, d, lim) => {
                if !is_child() {
                    return in_child("C23", &self.text(c), 60, st);
                }
                let (es, e) = shape(*k, *d);
                on_stack(8 << 20, || {
                    let s = es.expr_to_string_max_len(e, *lim);
                    st.transitions += 1;
                    if s.len() > bound(*lim, usize::MAX) {
                        return Err(format!("output of {} bytes", s.len()));
                    }
                    Ok(())
                })?;
            }
            RCase::Tree(k) => {
                let (t, es) = tree(*k);
                check_tree(&t, es.as_ref(), LEAF, st)?;
                let wrapped = RegexAst::Concat(vec![RegexAst::Byte(b'x'), t, RegexAst::EmptyString]);
                check_tree(&wrapped, es.as_ref(), LEAF, st)?;
                st.states += 2;
            }
            RCase::Symbols(n, singles) => {
                let n = *n;
                let mut b = RegexBuilder::new();
                let mut refs = vec![];
                let mut add = |b: &mut RegexBuilder, w: Vec<u32>| -> Result<(), String> {
                    refs.push(b.mk(&RegexAst::ByteSet(w.clone())).map_err(|e| e.to_string())?);
                    refs.push(b.mk(&RegexAst::ByteSet(w.iter().map(|x| !x).collect())).map_err(|e| e.to_string())?);
                    Ok(())
                };
                let put = |w: &mut Vec<u32>, k: usize| w[k / 32] |= 1 << (k % 32);
                if n <= 6 {
                    for m in 1u32..1 << n {
                        let mut w = vec![0u32; 8];
                        (0..n).filter(|i| m >> i & 1 == 1).for_each(|i| put(&mut w, b'a' as usize + i));
                        add(&mut b, w)?;
                    }
                } else {
                    // runs, alone and with each of the first and last bytes
                    for i in 0..n {
                        for j in [i, i / 2, i.saturating_sub(1), i.saturating_sub(2)] {
                            for x in [usize::MAX, 0, 1, n - 2, n - 1] {
                                let mut w = vec![0u32; 8];
                                (j..=i).for_each(|k| put(&mut w, k));
                                if x < n {
                                    put(&mut w, x);
                                }
                                add(&mut b, w)?;
                            }
                        }
                    }
                }
                if *singles {
                    let at = if n <= 6 { b'a' as usize } else { 0 };
                    for i in 0..n {
                        refs.push(b.mk(&RegexAst::Byte((at + i) as u8)).map_err(|e| e.to_string())?);
                    }
                }
                for rev in [false, true] {
                    if rev {
                        refs.reverse();
                    }
                    let (alpha, es, roots) = AlphabetInfo::from_exprset(b.exprset(), &refs);
                    distinct(&es, st)?;
                    legend(&alpha, &es, roots[0], st)?;
                }
            }
            RCase::Texts(n) => {
                let mut by_size: Vec<Vec<RegexAst>> = vec![vec![], text_leaves()];
                for k in 2..=*n {
                    // the largest trees over fewer leaves
                    let few = |m: usize| -> Vec<RegexAst> {
                        if k >= 4 && m == 1 { by_size[1].iter().step_by(if k == 4 { 2 } else { 6 }).cloned().collect() } else { by_size[m].clone() }
                    };
                    let mut v = vec![];
                    for c in few(k - 1) {
                        let b = || Box::new(c.clone());
                        v.extend([RegexAst::Not(b()), RegexAst::LookAhead(b()), RegexAst::Prefixes(b())]);
                        for (lo, hi) in [(0, 1), (1, 0xffff_ffff), (0, 0xffff_ffff), (1, 11), (11, 1)] {
                            v.push(RegexAst::Repeat(b(), lo, hi));
                        }
                        v.extend([RegexAst::And(vec![c.clone()]), RegexAst::Or(vec![c.clone()]), RegexAst::Concat(vec![c.clone()])]);
                    }
                    for i in 1..k.saturating_sub(1) {
                        for x in few(i) {
                            for y in few(k - 1 - i) {
                                let a = || vec![x.clone(), y.clone()];
                                v.extend([RegexAst::And(a()), RegexAst::Or(a()), RegexAst::Concat(a())]);
                            }
                        }
                    }
                    if k == 4 {
                        let l = few(1);
                        let l: Vec<_> = l.iter().step_by(3).collect();
                        for x in &l {
                            for y in &l {
                                for z in &l {
                                    v.push(RegexAst::Or(vec![(*x).clone(), (*y).clone(), (*z).clone()]));
                                }
                            }
                        }
                    }
                    if k >= 5 {
                        v = v.into_iter().step_by(2).collect();
                    }
                    by_size.push(v);
                }
                let mut seen: HashMap<String, (usize, usize)> = HashMap::new();
                for (k, l) in by_size.iter().enumerate() {
                    for (i, t) in l.iter().enumerate() {
                        let mut s = String::new();
                        t.write_to_str(&mut s, 1 << 20, None);
                        st.transitions += 1;
                        if let Some((k0, i0)) = seen.insert(s.clone(), (k, i)) {
                            return Err(format!("tree {i0} of size {k0} and tree {i} of size {k} both print as {s:?}"));
                        }
                    }
                }
                st.states += seen.len() as u64;
                st.outcome(&seen.len());
            }
            RCase::Alpha(n) => {
                let n = *n;
                let mut es = ExprSet::new(n);
                let nw = es.alphabet_words();
                for i in 0..n {
                    es.mk_byte(i as u8);
                    for j in [0, i / 2, i.saturating_sub(2), i.saturating_sub(1)] {
                        for fill in [false, true] {
                            let mut w = vec![0u32; nw];
                            for k in 0..n {
                                let inside = if fill { k >= j && k <= i } else { k == i || k == j };
                                if inside {
                                    w[k / 32] |= 1 << (k % 32);
                                }
                            }
                            let e = es.mk_byte_set(&w);
                            if e != ExprRef::NO_MATCH && n > 1 {
                                es.mk_byte_set_not(e);
                            }
                        }
                    }
                }
                if n > 1 {
                    distinct(&es, st)?;
                }
                for i in 1..es.len() as u32 {
                    for m in [0usize, 3, 30] {
                        let s = es.expr_to_string_max_len(ExprRef::new(i), m);
                        st.transitions += 1;
                        if s.len() > bound(m, 4) {
                            return Err(format!("limit {m}: output of {} bytes", s.len()));
                        }
                    }
                }
                es.expr_to_string_with_info(ExprRef::ANY_BYTE);
            }
        }
        Ok(())
    }
    fn rule(&self) -> String {
        "every expression of each set is rendered in full and all texts of one set are compared pairwise (via a table); \
         every length limit from 0 past the full length is tried per expression; shared graphs of up to 2^3000 tree nodes \
         and deep towers are rendered under a time limit"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the overshoot allowed over the limit is one leaf (a byte set of up to 256 members) plus closing brackets of the open levels".into(),
            "towers are rendered with limits up to 8000 (the printer recurses up to the limit)".into(),
        ]
    }
}
