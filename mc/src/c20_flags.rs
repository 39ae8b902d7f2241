//! C20: builder flags act like the same inline flags on the whole pattern.

use crate::c02_patterns::{check_rx, pool, PoolKind};
use crate::pat::*;
use crate::run::*;
use crate::util::*;
use derivre::{ExprRef, Regex, RegexAst, RegexBuilder};
use crate::lang::{Dfa, Part};
use std::collections::HashMap;
use std::sync::Arc;

type Ref = Arc<(P, Part, Dfa)>;
fn mkref(p: P) -> Ref {
    let part = p.part();
    let d = p.dfa(&part);
    Arc::new((p, part, d))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct F {
    pub unicode: bool,
    pub utf8: bool,
    pub x: bool,
    pub i: bool,
    pub s: bool,
}
pub const DEF: F = F { unicode: true, utf8: true, x: false, i: false, s: false };

impl F {
    fn of(n: u64) -> F {
        F { unicode: n & 1 == 0, utf8: n & 2 == 0, x: n & 4 != 0, i: n & 8 != 0, s: n & 16 != 0 }
    }
    /// the pattern with all flags spelled out in front
    fn inline(&self, p: &str) -> String {
        let (mut on, mut off) = (String::new(), String::new());
        for (c, v) in [('u', self.unicode), ('x', self.x), ('i', self.i), ('s', self.s)] {
            if v {
                on.push(c)
            } else {
                off.push(c)
            }
        }
        if !off.is_empty() {
            off.insert(0, '-');
        }
        format!("(?{on}{off}){p}")
    }
    pub fn meaning(&self, p: &str) -> Option<P> {
        let h = regex_syntax::ParserBuilder::new().utf8(self.utf8).build().parse(&self.inline(p)).ok()?;
        from_hir(&h)
    }
}

const SETTERS: usize = 10;
fn set(b: &mut RegexBuilder, f: &mut F, op: usize) {
    let v = op % 2 == 0;
    match op / 2 {
        0 => {
            b.unicode(v);
            f.unicode = v
        }
        1 => {
            b.utf8(v);
            f.utf8 = v
        }
        2 => {
            b.ignore_whitespace(v);
            f.x = v
        }
        3 => {
            b.case_insensitive(v);
            f.i = v
        }
        _ => {
            b.dot_matches_new_line(v);
            f.s = v
        }
    }
}

pub fn patterns() -> Vec<&'static str> {
    vec![
        "a", "k", "K", "s", "\u{e9}", "\u{17f}", "\u{212a}", "\u{df}", "a b", "a b # c\n", "#", "[ a]", "[a#]", "\\ ", "a\\#", ".", "..", "(?s:.)", "(?-s:.)", "(?s).", "(?-s).", "[^a]", "[a-c]", "[k]", "[^k]",
        "[\u{e9}]", "[\u{3b1}-\u{3c9}]", "\\w", "\\W", "\\d", "\\D", "\\s", "\\S", "[\\w]", "[^\\d]", "\\xff", "\\x{ff}", "[\\x80-\\xff]", "(?-u:\\xff)", "(?-u:.)", "(?u:.)", "(?u:\\w)", "(?-u:\\w)", "(?i:k)",
        "(?-i:k)", "a(?i)b", "(?-i)ab", "\\p{Greek}", "\\pL", "[[:alpha:]]", "\\x61", "\\n", "a|b ", " a | b ", "a{2}", "a {2}", "a +", "( a)", "(?x: a )", "(?-x: a )", "(?x)a b", "(?-x)a b", "(?:a.k \u{e9})+", ".*a", "[^\\n]", "\\.",
        "(?P<n>k.)", "(?U)a*", "", " ", "( )", "a(#b\n)c", "\u{e9}.\u{c9}", "[a-z&&[^k]]", "(?i)\u{3c3}", "\u{3a3}", "\\x4B", "\\x6b", "\\u212a", "[\\x00-\\x7f]", "[^\\x00-\\x7f]", "\\R", "(", "[b-a]", "\\p{Nope}",
        "\\141", "\\377", "\\r.", "[^\\r]", ";.;", "((a))", "(((a)b)c)", "(?R).", "a+?|b??",
    ]
}

#[derive(Clone)]
pub enum FCase {
    /// flag combination x listed pattern
    Combo(u64, usize),
    /// flag combination x generated pattern
    Gen(u64, u64),
    /// parser options (flags and one further option) x listed pattern, compiled directly
    Parser(u64, u64, usize),
    /// sequence of operations (setters, builds, clones)
    Hist(Vec<u8>),
}

pub struct Flags {
    gen: Vec<Pt>,
}
impl Flags {
    pub fn new() -> Flags {
        Flags { gen: pool(PoolKind::Plain, 2).all() }
    }
}

/// built in histories
const HP: [&str; 3] = ["k.", "\\s \u{e9}", "(?i:a)(?-s:.)"];
const OPS: u64 = SETTERS as u64 + 5;

fn one(b: &mut RegexBuilder, f: &F, s: &str, st: &mut Stats) -> Result<Option<ExprRef>, String> {
    match (b.mk_regex(s), f.meaning(s)) {
        (Ok(e), Some(p)) => {
            verify(b, e, &mkref(p), st).map_err(|m| format!("{s:?} with {f:?}: {m}"))?;
            Ok(Some(e))
        }
        (Err(_), None) => {
            st.add("refused", 1);
            Ok(None)
        }
        (Ok(_), None) => Err(format!("{s:?} with {f:?} accepted, but {:?} is refused by the parser", f.inline(s))),
        (Err(e), Some(_)) => Err(format!("{s:?} with {f:?} refused: {e}")),
    }
}

fn verify(b: &mut RegexBuilder, e: ExprRef, r: &Ref, st: &mut Stats) -> Result<(), String> {
    let (p, part, d) = &**r;
    let mut rx = b.to_regex(e);
    check_rx(&mut rx, p, d, part, st)?;
    st.outcome(&(&d.trans, &d.acc));
    Ok(())
}

const EXTRAS: u64 = 6;
/// A parser set up by the caller means what the parser says.
fn parser_options(f: &F, extra: u64, pt: &str, st: &mut Stats) -> Result<(), String> {
    let mut b = regex_syntax::ParserBuilder::new();
    b.unicode(f.unicode).utf8(f.utf8).ignore_whitespace(f.x).case_insensitive(f.i).dot_matches_new_line(f.s);
    match extra {
        0 => {}
        1 => drop(b.crlf(true)),
        2 => drop(b.swap_greed(true)),
        3 => drop(b.octal(true)),
        4 => drop(b.line_terminator(b';')),
        _ => drop(b.nest_limit(1)),
    }
    let what = format!("{pt:?} with a parser with {f:?} and further option {extra}");
    let want = b.build().parse(pt).ok().and_then(|h| from_hir(&h));
    if extra == 0 && want.is_some() != f.meaning(pt).is_some() {
        return Err(format!("{what}: the reference disagrees with itself"));
    }
    let parser = b.build();
    for k in 0..2 {
        let got = Regex::new_with_parser(parser.clone(), pt);
        match (got, &want) {
            (Ok(mut rx), Some(p)) => {
                let part = p.part();
                let d = p.dfa(&part);
                check_rx(&mut rx, p, &d, &part, st).map_err(|m| format!("{what}: {m}"))?;
                if k == 0 {
                    st.outcome(&(&d.trans, &d.acc));
                    // another parser in between changes nothing
                    let _ = Regex::new_with_parser(regex_syntax::ParserBuilder::new().case_insensitive(!f.i).unicode(!f.unicode).utf8(!f.utf8).build(), pt);
                    let _ = Regex::new(pt);
                }
            }
            (Err(_), None) => st.add("refused", 1),
            (Ok(_), None) => return Err(format!("{what} accepted, but the parser refuses it or the result is unsupported")),
            (Err(e), Some(_)) => return Err(format!("{what} refused: {e}")),
        }
    }
    Ok(())
}

impl Check for Flags {
    type Case = FCase;
    type Scratch = HashMap<(F, usize), Option<Arc<(P, Part, Dfa)>>>;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn scratch(&self) -> Self::Scratch {
        HashMap::new()
    }
    fn families(&self, tier: Tier) -> Vec<Fam<FCase>> {
        let n = patterns().len() as u64;
        let g = self.gen.len() as u64;
        let len = tier.pick(5, 6);
        let mut v = vec![
            Fam::new("flag-combinations", "all 32 flag combinations x listed patterns", 32 * n, move |i| {
                Some(FCase::Combo(i / n, (i % n) as usize))
            }),
            Fam::new("generated", "all 32 flag combinations x every pattern of size 1 and 2", 32 * g, move |i| Some(FCase::Gen(i / g, i % g))),
        ];
        v.push(Fam::new(
            "parser-options",
            "a parser of the caller's with all 32 flag combinations and at most one further option (CRLF, swapped greediness, octal, another line terminator, a nesting limit) x listed patterns",
            32 * EXTRAS * n,
            move |i| Some(FCase::Parser(i / n % 32, i / n / 32, (i % n) as usize)),
        ));
        for l in 1..=len {
            v.push(Fam::new(
                &format!("histories-{l}"),
                "all sequences of setting a flag on or off, building a pattern, building a plain expression, and continuing on a clone",
                OPS.pow(l),
                move |mut i| {
                    let mut ops = vec![];
                    for _ in 0..l {
                        ops.push((i % OPS) as u8);
                        i /= OPS;
                    }
                    Some(FCase::Hist(ops))
                },
            ));
        }
        v
    }
    fn text(&self, c: &FCase) -> String {
        match c {
            FCase::Combo(f, p) => format!("combo {f} {p} {:?}", patterns()[*p]),
            FCase::Parser(f, x, p) => format!("parser {f} {x} {p} {:?}", patterns()[*p]),
            FCase::Gen(f, p) => format!("gen {f} {p} {:?}", self.gen[*p as usize].s),
            FCase::Hist(v) => format!("hist {}", hex(v)),
        }
    }
    fn parse(&self, s: &str) -> FCase {
        let w: Vec<&str> = s.split(' ').collect();
        match w[0] {
            "combo" => FCase::Combo(w[1].parse().unwrap(), w[2].parse().unwrap()),
            "gen" => FCase::Gen(w[1].parse().unwrap(), w[2].parse().unwrap()),
            "parser" => FCase::Parser(w[1].parse().unwrap(), w[2].parse().unwrap(), w[3].parse().unwrap()),
            _ => FCase::Hist(unhex(w[1])),
        }
    }
    fn run(&self, c: &FCase, memo: &mut Self::Scratch, st: &mut Stats) -> Result<(), String> {
        match c {
            FCase::Parser(n, extra, p) => parser_options(&F::of(*n), *extra, patterns()[*p], st),
            FCase::Combo(n, _) | FCase::Gen(n, _) => {
                let pt: String = match c {
                    FCase::Combo(_, p) => patterns()[*p].to_string(),
                    FCase::Gen(_, p) => self.gen[*p as usize].s.clone(),
                    _ => unreachable!(),
                };
                let pt = pt.as_str();
                let f = F::of(*n);
                // three ways of getting to the same flags
                let order: [usize; 5] = [0, 1, 2, 3, 4];
                let mut first: Option<Option<ExprRef>> = None;
                for way in 0..3 {
                    let mut b = RegexBuilder::new();
                    let mut cur = DEF;
                    let vals = [f.unicode, f.utf8, f.x, f.i, f.s];
                    match way {
                        0 => {
                            b.unicode(f.unicode).utf8(f.utf8).ignore_whitespace(f.x).case_insensitive(f.i).dot_matches_new_line(f.s);
                            cur = f;
                        }
                        1 => {
                            for &k in order.iter().rev() {
                                set(&mut b, &mut cur, 2 * k + !vals[k] as usize);
                            }
                        }
                        _ => {
                            // set everything the wrong way first, then only correct it
                            for &k in &order {
                                set(&mut b, &mut cur, 2 * k + vals[k] as usize);
                            }
                            for &k in &order {
                                set(&mut b, &mut cur, 2 * k + !vals[k] as usize);
                            }
                        }
                    }
                    assert!(cur == f);
                    let r = if way == 0 {
                        one(&mut b, &f, pt, st)?
                    } else {
                        b.mk_regex(pt).ok()
                    };
                    match &first {
                        None => first = Some(r),
                        Some(x) => {
                            if *x != r {
                                return Err(format!("{pt:?} with {f:?}: the order of setting the flags matters ({x:?} / {r:?})"));
                            }
                        }
                    }
                    if way == 2 {
                        // also through the syntax tree and containment helpers
                        let a = b.mk(&RegexAst::Regex(pt.into())).ok();
                        if a != r {
                            return Err(format!("{pt:?} with {f:?}: mk(Regex) and mk_regex differ"));
                        }
                        // what a flag says holds until it is changed
                        let again = b.mk_regex(pt).ok();
                        if again != r {
                            return Err(format!("{pt:?} with {f:?}: building twice gives different references"));
                        }
                        if r.is_some() {
                            match b.is_contained_in(pt, pt, u64::MAX) {
                                Ok(true) => {}
                                x => return Err(format!("{pt:?} with {f:?} not contained in itself: {x:?}")),
                            }
                        }
                        // a clone keeps the flags
                        let mut b2 = b.clone();
                        if b2.mk_regex(pt).ok() != r {
                            return Err(format!("{pt:?} with {f:?}: a clone of the builder lost the flags"));
                        }
                    }
                }
                Ok(())
            }
            FCase::Hist(ops) => {
                let mut b = RegexBuilder::new();
                let mut f = DEF;
                let mut built: Vec<(ExprRef, Ref, String)> = vec![];
                let mut old: Option<(RegexBuilder, F)> = None;
                let probe = |b: &mut RegexBuilder, f: F, k: usize, built: &mut Vec<(ExprRef, Ref, String)>, memo: &mut Self::Scratch| {
                    let m = memo.entry((f, k)).or_insert_with(|| f.meaning(HP[k]).map(mkref)).clone();
                    match (b.mk_regex(HP[k]), m) {
                        (Ok(e), Some(p)) => {
                            built.push((e, p, format!("{:?} with {f:?}", HP[k])));
                            Ok(())
                        }
                        (Err(_), None) => Ok(()),
                        (Ok(_), None) => Err(format!("{:?} with {f:?} accepted", HP[k])),
                        (Err(e), Some(_)) => Err(format!("{:?} with {f:?} refused: {e}", HP[k])),
                    }
                };
                for &o in ops {
                    let o = o as usize;
                    st.transitions += 1;
                    if o < SETTERS {
                        set(&mut b, &mut f, o);
                    } else if o < SETTERS + 3 {
                        probe(&mut b, f, o - SETTERS, &mut built, memo)?;
                    } else if o == SETTERS + 3 {
                        let e = b
                            .mk(&RegexAst::Concat(vec![RegexAst::Literal("k. #".into()), RegexAst::Byte(b'A')]))
                            .map_err(|e| e.to_string())?;
                        built.push((e, mkref(plit("k. #A")), format!("a literal with {f:?}")));
                    } else {
                        old = Some((b.clone(), f));
                    }
                }
                for k in 0..3 {
                    probe(&mut b, f, k, &mut built, memo)?;
                }
                for (e, p, what) in &built {
                    verify(&mut b, *e, p, st).map_err(|m| format!("{what}: {m}"))?;
                }
                if let Some((mut b, f)) = old {
                    let mut built = vec![];
                    for k in 0..3 {
                        probe(&mut b, f, k, &mut built, memo)?;
                    }
                    for (e, p, what) in &built {
                        verify(&mut b, *e, p, st).map_err(|m| format!("on the clone, {what}: {m}"))?;
                    }
                }
                Ok(())
            }
        }
    }
    fn rule(&self) -> String {
        "all 32 flag combinations against the same pattern with every flag written inline, for listed and generated \
         patterns, and all sequences of flag changes, builds and clones up to a length; each built expression is compared \
         with the reference automaton of its meaning to a fixpoint"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the meaning of inline flags is the regex-syntax crate's".into()]
    }
}
