//! Different public routes to the same thing: ways to compile, ways to spell an expression,
//! ways to match.

use crate::explore::*;
use crate::families::*;
use crate::lang::*;
use crate::pat::*;
use crate::run::*;
use crate::term::*;
use derivre::{Regex, RegexAst, RegexBuilder, StateID};
use std::collections::HashMap;

#[derive(Clone)]
pub enum ECase {
    /// a pattern through every way of compiling it
    Pattern(String),
    /// an expression in every equivalent spelling
    Spell(Term),
    /// every short text through every way of matching it
    Texts(Term),
    /// an expression and long texts, mostly one byte repeated
    Runs(Term, usize),
    /// an expression and the texts made of each character from a range and two more
    Chars(u32, u32),
    /// a containment question through every way of asking it
    Inside(String, String),
}
use ECase::*;

pub struct Entry;

/// the two matchers behave alike on everything that can be reached
fn lockstep(a: &mut Regex, b: &mut Regex, bytes: &[u8], cap: usize, st: &mut Stats) -> Result<(), String> {
    if a.always_empty() != b.always_empty() {
        return Err(format!("always_empty: {} against {}", a.always_empty(), b.always_empty()));
    }
    let s0 = (a.initial_state(), b.initial_state());
    let mut seen: HashMap<(StateID, StateID), ()> = HashMap::from([(s0, ())]);
    let mut nodes = vec![(s0, usize::MAX, 0u8)];
    let mut i = 0;
    while i < nodes.len() {
        let (s, t) = nodes[i].0;
        let (x, y) = (
            (s.is_dead(), a.is_accepting(s), a.lookahead_len_for_state(s)),
            (t.is_dead(), b.is_accepting(t), b.lookahead_len_for_state(t)),
        );
        if x != y {
            let mut v = vec![];
            let mut j = i;
            while nodes[j].1 != usize::MAX {
                v.push(nodes[j].2);
                j = nodes[j].1;
            }
            v.reverse();
            return Err(format!("after {}: (dead, accepting, length) {x:?} against {y:?}", show_bytes(&v)));
        }
        for &c in bytes {
            let n = (a.transition(s, c), b.transition(t, c));
            st.transitions += 1;
            if seen.insert(n, ()).is_none() {
                nodes.push((n, i, c));
            }
        }
        if nodes.len() > cap {
            st.capped += 1;
            break;
        }
        i += 1;
    }
    st.states += nodes.len() as u64;
    Ok(())
}

type Route = (&'static str, Box<dyn Fn(&str) -> anyhow::Result<Regex>>);
fn routes() -> Vec<Route> {
    vec![
        ("Regex::new", Box::new(|p| Regex::new(p))),
        ("Regex::new_with_parser", Box::new(|p| Regex::new_with_parser(regex_syntax::ParserBuilder::new().build(), p))),
        ("mk_regex + to_regex", Box::new(|p| {
            let mut b = RegexBuilder::new();
            let e = b.mk_regex(p)?;
            Ok(b.to_regex(e))
        })),
        ("mk(Regex) + to_regex", Box::new(|p| {
            let mut b = RegexBuilder::new();
            let e = b.mk(&RegexAst::Regex(p.to_string()))?;
            Ok(b.to_regex(e))
        })),
        ("mk(Regex) + to_regex_limited without limit", Box::new(|p| {
            let mut b = RegexBuilder::new();
            let e = b.mk(&RegexAst::Regex(p.to_string()))?;
            b.to_regex_limited(e, u64::MAX)
        })),
        ("mk(ExprRef(mk_regex))", Box::new(|p| {
            let mut b = RegexBuilder::new();
            let e = b.mk_regex(p)?;
            let e = b.mk(&RegexAst::ExprRef(e))?;
            Ok(b.to_regex(e))
        })),
        ("mk(Concat([Regex])) in a used builder clone", Box::new(|p| {
            let mut b = RegexBuilder::new();
            b.mk_regex("[a-c]+x|qu(e|a)y").unwrap();
            let mut b = b.clone();
            let e = b.mk(&RegexAst::Concat(vec![RegexAst::Regex(p.to_string())]))?;
            Ok(b.to_regex(e))
        })),
        ("mk_regex with every flag set to its default", Box::new(|p| {
            let mut b = RegexBuilder::new();
            b.unicode(true).utf8(true).ignore_whitespace(false).case_insensitive(false).dot_matches_new_line(false);
            let e = b.mk_regex(p)?;
            Ok(b.to_regex(e))
        })),
        ("mk_regex + clone of the compiled regex", Box::new(|p| {
            let mut b = RegexBuilder::new();
            let e = b.mk_regex(p)?;
            Ok(b.to_regex(e).clone())
        })),
    ]
}

/// bytes worth stepping for a pattern: one per symbol of the compiled alphabet
fn symbol_bytes(r: &Regex) -> Vec<u8> {
    let mut seen = [false; 256];
    let mut v = vec![];
    for b in 0..=255u8 {
        let m = r.alpha().map(b);
        if !seen[m] {
            seen[m] = true;
            v.push(b);
        }
    }
    v
}
fn both_symbol_bytes(a: &Regex, b: &Regex) -> Vec<u8> {
    let mut seen = std::collections::HashSet::new();
    (0..=255u8).filter(|&x| seen.insert((a.alpha().map(x), b.alpha().map(x)))).collect()
}

fn pattern(p: &str, st: &mut Stats) -> Result<(), String> {
    let rs = routes();
    let mut first: Option<Regex> = None;
    let mut ok0 = None;
    for (name, f) in &rs {
        let r = f(p);
        match ok0 {
            None => ok0 = Some(r.is_ok()),
            Some(o) if o != r.is_ok() => {
                return Err(format!(
                    "{} {} but {name} {}",
                    rs[0].0,
                    if o { "succeeds" } else { "fails" },
                    match &r {
                        Ok(_) => "succeeds".to_string(),
                        Err(e) => format!("fails: {e:#}"),
                    }
                ))
            }
            _ => {}
        }
        if let Ok(mut r) = r {
            match &first {
                None => first = Some(r),
                Some(f) => {
                    let mut f = f.clone();
                    let bytes = both_symbol_bytes(&f, &r);
                    lockstep(&mut f, &mut r, &bytes, 3000, st).map_err(|m| format!("{} against {name}: {m}", rs[0].0))?;
                }
            }
        }
    }
    st.outcome(&(ok0, first.map(|f| symbol_bytes(&f).len())));
    Ok(())
}

fn ast_map(t: &Term, f: &dyn Fn(&Term) -> Option<RegexAst>) -> RegexAst {
    if let Some(r) = f(t) {
        return r;
    }
    let m = |v: &Vec<Term>| v.iter().map(|t| ast_map(t, f)).collect::<Vec<_>>();
    match t {
        Term::Cat(v) => RegexAst::Concat(m(v)),
        Term::Or(v) => RegexAst::Or(m(v)),
        Term::And(v) => RegexAst::And(m(v)),
        Term::Not(t) => RegexAst::Not(Box::new(ast_map(t, f))),
        Term::Pre(t) => RegexAst::Prefixes(Box::new(ast_map(t, f))),
        Term::Rep(t, a, b) => RegexAst::Repeat(Box::new(ast_map(t, f)), *a, *b),
        Term::La(t) => RegexAst::LookAhead(Box::new(ast_map(t, f))),
        t => t.to_ast(),
    }
}
fn has_la(t: &Term) -> bool {
    match t {
        Term::La(_) => true,
        Term::Cat(v) | Term::Or(v) | Term::And(v) => v.iter().any(has_la),
        Term::Not(t) | Term::Pre(t) | Term::Rep(t, _, _) => has_la(t),
        _ => false,
    }
}
fn every(n: u32, m: u32) -> RegexAst {
    RegexAst::Repeat(Box::new(RegexAst::ByteSet(vec![u32::MAX; 8])), n, m)
}

fn spellings(t: &Term) -> Vec<(&'static str, RegexAst)> {
    use RegexAst as A;
    let p = t.to_ast();
    let set1 = |b: u8| A::ByteSet((0..8).map(|w| if b as usize / 32 == w { 1u32 << (b % 32) } else { 0 }).collect());
    let letter = |t: &Term| match t {
        Term::Byte(b) => Some(*b),
        _ => None,
    };
    let mut v = vec![
        ("in a one-element Concat", A::Concat(vec![p.clone()])),
        ("in a one-element Or", A::Or(vec![p.clone()])),
        ("in an Or with itself", A::Or(vec![p.clone(), p.clone()])),
        ("in an Or with NoMatch", A::Or(vec![A::NoMatch, p.clone()])),
        ("in an Or with an empty Or", A::Or(vec![p.clone(), A::Or(vec![])])),
        ("after an empty Concat", A::Concat(vec![A::Concat(vec![]), p.clone()])),
        ("after EmptyString", A::Concat(vec![A::EmptyString, p.clone()])),
        ("bytes as one-element sets", ast_map(t, &|t| letter(t).map(set1))),
        ("bytes as byte literals", ast_map(t, &|t| letter(t).map(|b| A::ByteLiteral(vec![b])))),
        ("bytes as literals", ast_map(t, &|t| letter(t).filter(|b| *b < 128).map(|b| A::Literal((b as char).to_string())))),
        ("bytes as patterns", ast_map(t, &|t| letter(t).filter(|b| *b < 128).map(|b| A::Regex(format!("\\x{b:02x}"))))),
        ("bytes as unions of two sets", ast_map(t, &|t| letter(t).map(|b| A::And(vec![
            A::ByteSet((0..8).map(|w| if w <= b as usize / 32 { u32::MAX } else { 0 }).collect()),
            set1(b),
        ])))),
        ("literals as concatenations", ast_map(t, &|t| match t {
            Term::Lit(v) => Some(A::Concat(v.iter().map(|b| A::Byte(*b)).collect())),
            _ => None,
        })),
        ("literals as two pieces", ast_map(t, &|t| match t {
            Term::Lit(v) => Some(A::Concat(vec![
                A::ByteLiteral(v[..v.len() / 2].to_vec()),
                A::ByteLiteral(v[v.len() / 2..].to_vec()),
            ])),
            _ => None,
        })),
        ("sets as unions of bytes", ast_map(t, &|t| match t {
            Term::Set(s) if s.iter().filter(|x| **x).count() <= 8 => {
                Some(A::Or((0..=255u8).filter(|b| s[*b as usize]).map(A::Byte).collect()))
            }
            Term::Set(s) => Some(A::Or(vec![
                A::ByteSet(words_of(s).iter().enumerate().map(|(i, w)| if i < 3 { *w } else { *w & 0x5555_5555 }).collect()),
                A::ByteSet(words_of(s).iter().enumerate().map(|(i, w)| if i < 3 { 0 } else { *w & 0xaaaa_aaaa }).collect()),
            ])),
            _ => None,
        })),
        ("EmptyString as an empty literal", ast_map(t, &|t| (*t == Term::Eps).then(|| A::Literal(String::new())))),
        ("NoMatch as an empty set", ast_map(t, &|t| (*t == Term::None).then(|| A::ByteSet(vec![0; 8])))),
        ("unions right-nested", ast_map(t, &|t| match t {
            Term::Or(v) if v.len() > 2 => Some(A::Or(vec![v[0].to_ast(), Term::Or(v[1..].to_vec()).to_ast()])),
            _ => None,
        })),
        ("concatenations left-nested", ast_map(t, &|t| match t {
            Term::Cat(v) if v.len() > 2 => Some(A::Concat(vec![
                Term::Cat(v[..v.len() - 1].to_vec()).to_ast(),
                v[v.len() - 1].to_ast(),
            ])),
            _ => None,
        })),
        ("unions reversed", ast_map(t, &|t| match t {
            Term::Or(v) => Some(A::Or(v.iter().rev().map(|x| x.to_ast()).collect())),
            _ => None,
        })),
    ];
    if !has_la(t) {
        v.extend([
            ("in a one-element And", A::And(vec![p.clone()])),
            ("in an And with itself", A::And(vec![p.clone(), p.clone()])),
            ("in an And with everything", A::And(vec![every(0, u32::MAX), p.clone()])),
            ("repeated exactly once", A::Repeat(Box::new(p.clone()), 1, 1)),
            ("before EmptyString", A::Concat(vec![p.clone(), A::EmptyString])),
            ("complemented twice", A::Not(Box::new(A::Not(Box::new(p.clone()))))),
            ("as what is not in the complement", A::And(vec![
                A::Not(Box::new(A::Not(Box::new(p.clone())))),
                A::Or(vec![every(0, 2), every(3, u32::MAX)]),
            ])),
            ("intersections reversed", ast_map(t, &|t| match t {
                Term::And(v) => Some(A::And(v.iter().rev().map(|x| x.to_ast()).collect())),
                _ => None,
            })),
            ("unions by De Morgan", ast_map(t, &|t| match t {
                Term::Or(v) => Some(A::Not(Box::new(A::And(v.iter().map(|x| A::Not(Box::new(x.to_ast()))).collect())))),
                _ => None,
            })),
            ("first repetition unrolled", ast_map(t, &|t| match t {
                Term::Rep(x, a, b) if *a > 0 => Some(A::Concat(vec![
                    x.to_ast(),
                    A::Repeat(Box::new(x.to_ast()), a - 1, if *b == INF { INF } else { b - 1 }),
                ])),
                Term::Rep(x, 0, b) if *b > 0 => Some(A::Or(vec![
                    A::EmptyString,
                    A::Concat(vec![x.to_ast(), A::Repeat(Box::new(x.to_ast()), 0, if *b == INF { INF } else { b - 1 })]),
                ])),
                _ => None,
            })),
        ]);
    }
    v
}

fn spell(t: &Term, st: &mut Stats) -> Result<(), String> {
    let mut b0 = RegexBuilder::new();
    let e0 = b0.mk(&t.to_ast()).map_err(|e| format!("building failed: {e:#}"))?;
    let mut r0 = b0.to_regex(e0);
    let bytes = t.part().reps();
    let cap = if has_la(t) { 150 } else { 3000 };
    let mut list = spellings(t);
    list.push(("by reference", RegexAst::ExprRef(e0)));
    for (name, a) in list {
        // in a builder of its own, and in the one that already has the plain form
        let fresh = (name != "by reference").then(RegexBuilder::new);
        for b in [fresh, Some(b0.clone())].into_iter().flatten() {
            let mut b = b;
            let e = b.mk(&a).map_err(|e| format!("{name}: building failed: {e:#}"))?;
            if b.is_nullable(e) != b0.is_nullable(e0) {
                return Err(format!("{name}: is_nullable changes to {}", b.is_nullable(e)));
            }
            let mut r = b.to_regex(e);
            lockstep(&mut r0, &mut r, &bytes, cap, st).map_err(|m| format!("{name}: {m}"))?;
        }
        st.add("spellings", 1);
    }
    st.outcome(&t.text());
    Ok(())
}

fn texts(t: &Term, st: &mut Stats) -> Result<(), String> {
    let mut b = RegexBuilder::new();
    let e = b.mk(&t.to_ast()).map_err(|e| format!("building failed: {e:#}"))?;
    let cold = b.to_regex(e);
    let mut warm = cold.clone();
    let letters = ["a", "b", "é", "\0"];
    let mut all: Vec<String> = vec![String::new()];
    let mut i = 0;
    while i < all.len() {
        if all[i].chars().count() < 4 {
            for l in letters.iter().take(if all[i].chars().count() < 2 { 4 } else { 2 }) {
                all.push(format!("{}{l}", all[i]));
            }
        }
        i += 1;
    }
    for s in &all {
        let bytes = s.as_bytes();
        // one step at a time
        let mut q = warm.initial_state();
        let mut states = vec![q];
        for &x in bytes {
            q = warm.transition(q, x);
            states.push(q);
        }
        let want = warm.lookahead_len_for_state(q);
        let ctx = |m: String| format!("text {s:?}: {m} (step by step: length {want:?})");
        if warm.is_accepting(q) != want.is_some() {
            return Err(ctx("is_accepting differs from lookahead_len_for_state".into()));
        }
        for pass in 0..2 {
            let mut x = cold.clone();
            let r = if pass == 0 { &mut x } else { &mut warm };
            let how = ["a fresh copy", "a used regex"][pass];
            if r.lookahead_len(s) != want {
                return Err(ctx(format!("lookahead_len on {how} = {:?}", r.lookahead_len(s))));
            }
            if r.lookahead_len_bytes(bytes) != want {
                return Err(ctx(format!("lookahead_len_bytes on {how} = {:?}", r.lookahead_len_bytes(bytes))));
            }
            if r.is_match(s) != want.is_some() {
                return Err(ctx(format!("is_match on {how} = {}", r.is_match(s))));
            }
            if r.is_match_bytes(bytes) != want.is_some() {
                return Err(ctx(format!("is_match_bytes on {how} = {}", r.is_match_bytes(bytes))));
            }
        }
        for (first, f) in [0, 1, 2, 3].into_iter().zip([
            (|r: &mut Regex, s: &str| r.is_match(s)) as fn(&mut Regex, &str) -> bool,
            |r, s| r.is_match_bytes(s.as_bytes()),
            |r, s| r.lookahead_len(s).is_some(),
            |r, s| r.lookahead_len_bytes(s.as_bytes()).is_some(),
        ]) {
            let mut x = cold.clone();
            if f(&mut x, s) != want.is_some() {
                return Err(ctx(format!("matching call number {first} as the very first query = {}", !want.is_some())));
            }
        }
        // every split in two and three pieces
        let s0 = warm.initial_state();
        for i in 0..=bytes.len() {
            let m = warm.transition_bytes(s0, &bytes[..i]);
            if m != states[i] {
                return Err(ctx(format!("transition_bytes over the first {i} bytes leads to another state")));
            }
            for j in i..=bytes.len() {
                let k = warm.transition_bytes(m, &bytes[i..j]);
                let e = warm.transition_bytes(k, &bytes[j..]);
                if k != states[j] || e != q {
                    return Err(ctx(format!("transition_bytes split at {i} and {j} leads to another state")));
                }
                st.transitions += 1;
            }
        }
        st.outcome(&want);
    }
    st.states += all.len() as u64;
    Ok(())
}

/// Long texts: runs of one byte with another byte at every place, read byte by byte and in blocks.
fn runs(t: &Term, max: usize, st: &mut Stats) -> Result<(), String> {
    let mut b = RegexBuilder::new();
    let e = b.mk(&t.to_ast()).map_err(|e| format!("building failed: {e:#}"))?;
    let cold = b.to_regex(e);
    let mut warm = cold.clone();
    let mut all: Vec<(usize, usize, Vec<u8>)> = vec![];
    for n in (5..=max).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4097].into_iter().filter(|x| *x > max)) {
        for (x, y) in [(b'a', b'b'), (b'b', b'a'), (b'a', 0u8)] {
            let places: Vec<usize> = if n <= max { (0..n).collect() } else { vec![0, 1, 15, 16, n / 2, n - 17, n - 16, n - 2, n - 1] };
            let run = vec![x; n];
            all.push((0, n, run.clone()));
            for &p in &places {
                let mut r = run.clone();
                r[p] = y;
                all.push((p, n, r.clone()));
                if p + 3 < n {
                    r[p + 3] = y;
                    all.push((p, n, r));
                }
            }
        }
    }
    for (p, n, bytes) in &all {
        let mut q = warm.initial_state();
        let mut states = vec![q];
        for &x in bytes {
            q = warm.transition(q, x);
            states.push(q);
        }
        let want = warm.lookahead_len_for_state(q);
        let ctx = |m: String| format!("a run of {n} bytes {} with another byte at {p}: {m} (step by step: length {want:?})", bytes[(p + 1) % n]);
        if n <= &max || *p == n / 2 {
            let mut x = cold.clone();
            for (how, r) in [("a fresh copy", &mut x), ("a used regex", &mut warm)] {
                if r.lookahead_len_bytes(bytes) != want {
                    return Err(ctx(format!("lookahead_len_bytes on {how} = {:?}", r.lookahead_len_bytes(bytes))));
                }
                if r.is_match_bytes(bytes) != want.is_some() {
                    return Err(ctx(format!("is_match_bytes on {how} = {}", want.is_none())));
                }
                let s = std::str::from_utf8(bytes).unwrap();
                if r.is_match(s) != want.is_some() || r.lookahead_len(s) != want {
                    return Err(ctx(format!("is_match or lookahead_len on {how} differs")));
                }
            }
        }
        let s0 = warm.initial_state();
        let cuts = [0, 1, 2, 15, 16, 17, n / 2, n.saturating_sub(16), n - 1, *n];
        for &i in cuts.iter().filter(|i| **i <= *n) {
            let m = warm.transition_bytes(s0, &bytes[..i]);
            let k = warm.transition_bytes(m, &bytes[i..]);
            if m != states[i] || k != q {
                return Err(ctx(format!("transition_bytes split at {i} leads to another state")));
            }
            if warm.transition_bytes(states[i], &bytes[i..]) != q {
                return Err(ctx(format!("transition_bytes from the state after {i} bytes leads to another state")));
            }
            st.transitions += 1;
        }
        st.outcome(&(want.is_some(), n));
    }
    st.states += all.len() as u64;
    Ok(())
}

/// Every character of a range, alone, in front of others, behind, twice: the text interface
/// gives what stepping over its bytes gives.
fn chars_of(from: u32, to: u32, st: &mut Stats) -> Result<(), String> {
    let pats = ["(?s:.)b?", "(?s:b.b*(?P<stop>b))", "(?s:..)", "(?-u:[a-b\\x80-\\x8f\\xc0-\\xf8]+)", "b*"];
    for p in pats {
        let mut bld = RegexBuilder::new();
        bld.utf8(false);
        let e = bld.mk_regex(p).map_err(|e| format!("building {p:?} failed: {e:#}"))?;
        let mut r = bld.to_regex(e);
        for c in (from..to).filter_map(char::from_u32) {
            for s in [format!("{c}"), format!("{c}b"), format!("b{c}"), format!("b{c}bb"), format!("{c}{c}"), format!("bb{c}")] {
                let mut q = r.initial_state();
                for x in s.as_bytes() {
                    q = r.transition(q, *x);
                }
                let want = r.lookahead_len_for_state(q);
                let got = (r.lookahead_len(&s), r.lookahead_len_bytes(s.as_bytes()), r.is_match(&s), r.is_match_bytes(s.as_bytes()));
                if got != (want, want, want.is_some(), want.is_some()) {
                    return Err(format!("pattern {p:?}, text {s:?}: (lookahead_len, _bytes, is_match, _bytes) = {got:?}, step by step {want:?}"));
                }
                st.transitions += s.len() as u64;
                st.states += 1;
            }
        }
    }
    st.outcome(&from);
    Ok(())
}

fn inside(small: &str, big: &str, st: &mut Stats) -> Result<(), String> {
    use RegexAst as A;
    let n = RegexBuilder::new;
    let empty = |b: &RegexBuilder, e| b.to_regex(e).always_empty();
    let (sa, ba) = (A::Regex(small.to_string()), A::Regex(big.to_string()));
    let mut answers: Vec<(&str, Result<bool, String>)> = vec![];
    let s = |r: anyhow::Result<bool>| r.map_err(|e| format!("{e:#}"));
    answers.push(("is_contained_in", s(n().is_contained_in(small, big, u64::MAX))));
    answers.push(("mk_contained_in", s((|| {
        let mut b = n();
        let e = b.mk_contained_in(small, big)?;
        Ok(empty(&b, e))
    })())));
    answers.push(("mk_contained_in_ast", s((|| {
        let mut b = n();
        let e = b.mk_contained_in_ast(&sa, &ba)?;
        Ok(empty(&b, e))
    })())));
    answers.push(("RegexAst::contained_in", s((|| {
        let mut b = n();
        let e = b.mk(&sa.contained_in(&ba))?;
        Ok(empty(&b, e))
    })())));
    answers.push(("contained_in of references", s((|| {
        let mut b = n();
        let y = b.mk_regex(big)?;
        let x = b.mk_regex(small)?;
        let e = b.mk(&A::ExprRef(x).contained_in(&A::ExprRef(y)))?;
        Ok(empty(&b, e))
    })())));
    answers.push(("And(small, Not(big)) by hand", s((|| {
        let mut b = n();
        let e = b.mk(&A::And(vec![A::Not(Box::new(ba.clone())), sa.clone()]))?;
        Ok(b.to_regex_limited(e, u64::MAX)?.always_empty())
    })())));
    answers.push(("is_contained_in in a builder used before", s((|| {
        let mut b = n();
        b.is_contained_in("a+", "[ab]*", u64::MAX)?;
        let _ = b.is_contained_in(big, small, u64::MAX);
        b.is_contained_in(small, big, u64::MAX)
    })())));
    // joint walk of the two matchers: is there a text the small one takes and the big one does not?
    answers.push(("walking both matchers", s((|| {
        let mut b = n();
        let x = b.mk_regex(small)?;
        let y = b.mk_regex(big)?;
        let (mut x, mut y) = (b.to_regex(x), b.to_regex(y));
        let bytes = both_symbol_bytes(&x, &y);
        let mut todo = vec![(x.initial_state(), y.initial_state())];
        let mut seen: HashMap<(StateID, StateID), ()> = HashMap::from([(todo[0], ())]);
        while let Some((q, r)) = todo.pop() {
            st.states += 1;
            if x.is_accepting(q) && !y.is_accepting(r) {
                return Ok(false);
            }
            for &c in &bytes {
                let t = (x.transition(q, c), y.transition(r, c));
                st.transitions += 1;
                if seen.insert(t, ()).is_none() {
                    todo.push(t);
                }
            }
        }
        Ok(true)
    })())));
    for (n, a) in &answers[1..] {
        let same = match (a, &answers[0].1) {
            (Ok(x), Ok(y)) => x == y,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !same {
            return Err(format!("{} = {:?} but {n} = {a:?}", answers[0].0, answers[0].1));
        }
    }
    st.outcome(&answers[0].1.clone().ok());
    Ok(())
}

const PATTERNS: &[&str] = &[
    "", "a", "ab", "a|b", "a*", "a+b?", "(a|b)*c", "[a-c]x", "[^a]", ".", "(?s).", "(?s:.)*", "\\d+", "\\w", "\\s*", "\\W", "\\D\\S",
    "\\p{L}", "\\P{Greek}", "(?i)abc", "(?i)k", "(?-u:a)", "(?-u)\\w", "(?-u)\\xff", "(?-u:\\xff)", "(?x) a b # c", "^a", "a$", "^a$", "\\Aa\\z",
    "(?m)^a", "(?m)a$", "a^", "$a", "a\\b", "\\ba", "\\Ba", "(?P<n>a)b", "(?P<stop>a)", "a(?P<stop>b)", "a*(?P<stop>b+)", "a(?P<stop>)",
    "(?P<stop>b)a", "a(?P<stop>b)c", "(a(?P<stop>b))*", "a(?P<stop>b)|c", "(?<stop>ab*)", "a{2}", "a{2,4}", "a{2,}", "a{4,2}", "a{", "(", ")", "[", "*", "a**",
    "\\", "\\q", "(?P<n>a)(?P<n>b)", "(?P<1>a)", "\\1", "(?=a)", "(?!a)", "é+", "[é-ü]", "日本", "\\u{10FFFF}", "\\u{D800}", "\\x{110000}",
    "foo|foobar|fool|fo", "a|ab|abc|abcd", "(abc|abd|abe)f", "x*y*z*", "((a*)*)*", "(a?){3}", "\\n\\t\\r", "a\\.b", "[[:alpha:]]", "[\\w--\\d]", "[a&&b]",
    "[a-z&&[^m]]", "\\R", "(?R)a", "(?U)a*", "a??", "a{1}{2}", "\\Qa", "[]a]", "[^]a]", "a||b", "|", "()", "(|a)",
];
const CONTAIN: &[&str] = &[
    "", "a", "b", "aa", "a*", "a+", "(ab)*", "[ab]", "[ab]*", "[^a]", "a?b?", ".", ".*", "(?s).*", "a.*", "(?i)a", "[A-Za-z]", "\\d", "[0-9]", "\\w+",
    "(?-u)\\w+", "é", "[é-ü]", "abc|abd", "ab[cd]", "a{2,4}", "a{3}", "[a&&b]", "^a$", "a(b", "a\\b",
];

impl Check for Entry {
    type Case = ECase;
    type Scratch = ();
    fn id(&self) -> &'static str {
        "C25"
    }
    fn scratch(&self) {}
    fn families(&self, tier: Tier) -> Vec<Fam<ECase>> {
        let mut v = vec![];
        v.push(Fam::list("patterns", "listed patterns, valid and invalid, through nine ways of compiling", PATTERNS.iter().map(|p| Pattern(p.to_string())).collect()));
        let atoms = vec![
            atom("a", plit("a")), atom("b", plit("b")), atom(".", dot()), atom("[^a]", dot()), atom("^", dot()), atom("$", dot()),
            atom("é", dot()), atom("(?P<stop>a)", dot()), atom("(?i:A)", dot()), atom("\\b", dot()),
        ];
        let pool = PtPool::new(atoms, tier.pick(3, 4));
        let l: Vec<ECase> = pool.all().into_iter().map(|p| Pattern(p.s)).collect();
        v.push(Fam::list("small-patterns", "every small pattern over ten atoms (anchors, a lookahead group and flags among them)", l));
        v.push(Fam::new("nested-patterns", "five nesting shapes at every depth up to 260, around the parser's own limit", 5 * 261, |i| {
            let (d, shape) = ((i / 5) as usize, i % 5);
            Some(Pattern(match shape {
                0 => format!("{}a{}", "(".repeat(d), ")".repeat(d)),
                1 => format!("{}a{}", "(?:b|".repeat(d), ")".repeat(d)),
                2 => format!("{}a{}", "(?:".repeat(d), ")?".repeat(d)),
                3 => format!("{}a{}", "(x".repeat(d), "y)".repeat(d)),
                _ => format!("a{}", "{1}".repeat(d)),
            }))
        }));
        v.push(Fam::new("long-patterns", "three shapes of patterns at every length up to 130 and around larger powers of two", 3 * 160, |i| {
            let k = (i / 3) as usize;
            let n = if k <= 130 { k } else { [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4096][..].get(k - 131).copied()? };
            Some(Pattern(match i % 3 {
                0 => "ab".repeat(n),
                1 => (0..n).map(|j| format!("k{j}")).collect::<Vec<_>>().join("|"),
                _ => format!("[ab]{{{n}}}c"),
            }))
        }));
        let terms: Vec<Term> = {
            let mut p = Pool::new(leaves_full(), uns_full(), BINS.to_vec(), tier.pick(3, 4)).all();
            if tier == Tier::Quick {
                p.extend(Pool::new(leaves_core(), uns_core(), BINS.to_vec(), 4).all().into_iter().filter(|t| t.size() == 4));
            }
            p
        };
        let more: Vec<Term> = {
            let l = |s: &str| Term::Lit(s.as_bytes().to_vec());
            let mut v = vec![l(""), l("a"), l("ab"), l("abab"), Term::Txt("é".into()), Term::Txt("aéb".into()), Term::Lit(vec![0, 255, 128])];
            v.push(Term::Or(vec![l("ab"), l("abc"), l("b"), l("")]));
            v.push(Term::Or(vec![l("ab"), Term::Cat(vec![l("ab"), not(l("c"))]), star(l("ab"))]));
            v.push(Term::Cat(vec![l("ab"), star(any()), l("ab")]));
            v.push(Term::And(vec![star(any()), not(l("ab")), rep(any(), 0, 3)]));
            v.push(Term::Cat(vec![rep(l("ab"), 2, 4), set(|b| b >= 0x80), pre(l("abc"))]));
            for b in [0u8, 31, 32, 63, 64, 127, 128, 255] {
                v.push(byte(b));
                v.push(not(byte(b)));
                v.push(Term::Cat(vec![byte(b), range(b / 2, b), star(byte(b))]));
                v.push(Term::Or(vec![byte(b), byte(b ^ 1), byte(b ^ 64)]));
            }
            v
        };
        let las: Vec<Term> = {
            let a = [Term::Eps, byte(b'a'), star(byte(b'a')), Term::Or(vec![byte(b'a'), Term::Lit(b"ab".to_vec())]), star(any())];
            let b = [byte(b'b'), Term::Lit(b"ab".to_vec()), rep(byte(b'b'), 1, 3), Term::Cat(vec![star(byte(b'a')), byte(b'b')]), Term::Eps];
            let mut v = vec![];
            for x in &a {
                for y in &b {
                    v.push(Term::Cat(vec![x.clone(), la(y.clone())]));
                    if *y != Term::Eps {
                        v.push(Term::Or(vec![Term::Cat(vec![x.clone(), la(y.clone())]), Term::Cat(vec![byte(b'b'), la(byte(b'a'))])]));
                    }
                }
            }
            v
        };
        v.push(Fam::list("spellings", "each small expression in some thirty equivalent spellings", terms.iter().chain(&more).chain(&las).cloned().map(Spell).collect()));
        v.push(Fam::list("texts", "each small expression with 121 texts through every way of matching", terms.iter().chain(&more).chain(&las).cloned().map(Texts).collect()));
        v.push(Fam::new("characters", "every Unicode character alone, before and after others, through every way of matching a text", 0x110, |i| {
            Some(Chars(i as u32 * 0x1000, (i as u32 + 1) * 0x1000))
        }));
        let max = tier.pick(34usize, 70);
        let mut v2: Vec<Term> = terms.iter().chain(&more).chain(&las).cloned().collect();
        let (a, o) = (|| byte(b'a'), || byte(b'b'));
        for n in [1u32, 2, 5, 15, 16, 17, 100] {
            v2.push(Term::Cat(vec![star(a()), rep(o(), 0, n), star(a())]));
            v2.push(Term::Cat(vec![star(a()), o(), rep(a(), n, n)]));
            v2.push(Term::Cat(vec![rep(a(), n, INF), rep(Term::Cat(vec![o(), rep(a(), n, INF)]), 0, INF)]));
            v2.push(not(Term::Cat(vec![star(any()), rep(a(), n, n), star(any()), o(), star(any())])));
            v2.push(Term::Cat(vec![star(range(b'a', b'b')), la(Term::Cat(vec![a(), rep(o(), n, n)]))]));
        }
        v.push(Fam::list("runs", &format!("each small expression with long runs of one byte and others inside (every place up to {max}, some up to 4097), read whole, in pieces and byte by byte"), v2.into_iter().map(|t| Runs(t, max)).collect()));
        let n = CONTAIN.len() as u64;
        v.push(Fam::new("containment", &format!("all ordered pairs of {n} patterns through eight ways of asking"), n * n, move |i| {
            Some(Inside(CONTAIN[(i / n) as usize].into(), CONTAIN[(i % n) as usize].into()))
        }));
        v
    }
    fn text(&self, c: &ECase) -> String {
        match c {
            Pattern(p) => format!("pattern {}", crate::util::hex(p.as_bytes())),
            Spell(t) => format!("spell {}", t.text()),
            Texts(t) => format!("texts {}", t.text()),
            Runs(t, n) => format!("runs {n} {}", t.text()),
            Chars(a, b) => format!("chars {a} {b}"),
            Inside(a, b) => format!("inside {}. {}.", crate::util::hex(a.as_bytes()), crate::util::hex(b.as_bytes())),
        }
    }
    fn parse(&self, s: &str) -> ECase {
        let text = |s: &str| String::from_utf8(crate::util::unhex(s.trim_end_matches('.'))).unwrap();
        let (k, r) = s.split_once(' ').unwrap();
        match k {
            "pattern" => Pattern(text(r.trim())),
            "spell" => Spell(Term::parse(r)),
            "texts" => Texts(Term::parse(r)),
            "chars" => {
                let (a, b) = r.split_once(' ').unwrap();
                Chars(a.parse().unwrap(), b.parse().unwrap())
            }
            "runs" => {
                let (n, t) = r.split_once(' ').unwrap();
                Runs(Term::parse(t), n.parse().unwrap())
            }
            _ => {
                let (a, b) = r.split_once(' ').unwrap();
                Inside(text(a), text(b))
            }
        }
    }
    fn run(&self, c: &ECase, _w: &mut (), st: &mut Stats) -> Result<(), String> {
        match c {
            Pattern(p) => pattern(p, st).map_err(|m| format!("pattern {p:?}: {m}")),
            Spell(t) => spell(t, st),
            Texts(t) => texts(t, st),
            Runs(t, n) => runs(t, *n, st),
            Chars(a, b) => chars_of(*a, *b, st),
            Inside(a, b) => inside(a, b, st).map_err(|m| format!("{a:?} in {b:?}: {m}")),
        }
    }
    fn rule(&self) -> String {
        "for each listed pattern, expression, text or containment question every public route is taken; compiled matchers are \
         compared by closing their joint state graph (dead, accepting and lookahead length in every joint state), matching calls \
         and all splits of a text by direct comparison"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "joint walks are cut at 3000 joint states (150 with lookahead, whose lengths may grow without bound); cut walks are counted".into(),
            "this check compares routes with each other; what they should answer is the subject of C01-C05".into(),
        ]
    }
}
