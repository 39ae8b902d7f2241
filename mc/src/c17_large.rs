//! C17: size.  Every shape is instantiated for all small sizes and a ladder of large ones; the
//! library runs on a thread with the 512 KB stack, large sizes in a process of their own,
//! and the answers are compared with closed forms.

use crate::run::*;
use derivre::{JsonQuoteOptions, NextByte, Regex, RegexAst, RegexBuilder, StateID};
use std::collections::HashSet;

pub struct Shape {
    pub name: &'static str,
    pub what: &'static str,
    pub run: fn(u64) -> Result<(), String>,
    pub quick: u64,
    pub thorough: u64,
    /// all sizes up to this one, then powers of two (and neighbours) up to the limit
    pub dense: u64,
}

type R = Result<(), String>;
const INF: u32 = u32::MAX;

fn lit(b: &[u8]) -> RegexAst {
    RegexAst::ByteLiteral(b.to_vec())
}
fn bx(a: RegexAst) -> Box<RegexAst> {
    Box::new(a)
}
fn not(a: RegexAst) -> RegexAst {
    RegexAst::Not(bx(a))
}
fn rep(a: RegexAst, x: u32, y: u32) -> RegexAst {
    RegexAst::Repeat(bx(a), x, y)
}
fn bset(s: &[u8]) -> RegexAst {
    let mut w = vec![0u32; 8];
    for b in s {
        w[*b as usize / 32] |= 1 << (b % 32);
    }
    RegexAst::ByteSet(w)
}
fn any() -> RegexAst {
    RegexAst::ByteSet(vec![u32::MAX; 8])
}
fn cat(v: Vec<RegexAst>) -> RegexAst {
    RegexAst::Concat(v)
}
fn or(v: Vec<RegexAst>) -> RegexAst {
    RegexAst::Or(v)
}

/// The syntax tree is made (and never dropped) on a big stack: its own recursive destructor is
/// not what is checked.  Everything the library does runs on 512 KB.
fn big_stack() -> usize {
    if is_child() {
        4 << 30
    } else {
        64 << 20
    }
}
fn with_ast(mk: impl FnOnce() -> RegexAst + Send, f: impl FnOnce(&RegexAst) -> R + Send) -> R {
    let a = on_stack(big_stack(), || Box::leak(Box::new(mk())) as &'static RegexAst);
    let r = on_small_stack(|| guarded(|| f(a)).and_then(|x| x));
    let p = a as *const RegexAst as usize;
    on_stack(big_stack(), move || drop(unsafe { Box::from_raw(p as *mut RegexAst) }));
    r
}
fn compile(a: &RegexAst) -> Result<Regex, String> {
    let mut b = RegexBuilder::new();
    let e = b.mk(a).map_err(|e| format!("building failed: {e}"))?;
    Ok(b.to_regex(e))
}
fn expect(rx: &mut Regex, w: &[u8], want: bool, what: &str) -> R {
    let g = rx.is_match_bytes(w);
    if g != want {
        return Err(format!("{what} (input of {} bytes): matcher says {g}", w.len()));
    }
    let l = rx.lookahead_len_bytes(w);
    if l != if want { Some(0) } else { None } {
        return Err(format!("{what}: lookahead length {l:?}"));
    }
    Ok(())
}
fn same<T: PartialEq + std::fmt::Debug>(got: T, want: T, what: &str) -> R {
    if got != want {
        return Err(format!("{what}: {got:?}, expected {want:?}"));
    }
    Ok(())
}
fn pat(n: u64) -> Vec<u8> {
    // a square-free-ish word over three letters, so that positions matter
    (0..n).map(|i| b'a' + ((i.count_ones() as u64 + i / 3) % 3) as u8).collect()
}
fn spots(n: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..n.min(20)).collect();
    let mut p = 32;
    while p < n {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    v.extend([n.saturating_sub(2), n.saturating_sub(1), n / 2]);
    v.retain(|x| *x < n);
    v.sort_unstable();
    v.dedup();
    v
}
/// a few spots only, for quadratic shapes
fn few(n: u64) -> Vec<u64> {
    let mut v = vec![0, 1, 2, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1)];
    v.retain(|x| *x < n);
    v.sort_unstable();
    v.dedup();
    v
}

fn literal(n: u64) -> R {
    let w = pat(n);
    on_small_stack(|| {
        let mut b = RegexBuilder::new();
        let e = b.mk(&lit(&w)).map_err(|e| e.to_string())?;
        let e2 = b.mk(&RegexAst::Literal(String::from_utf8(w.clone()).unwrap())).map_err(|e| e.to_string())?;
        same(e2, e, "text and byte literal")?;
        same(b.is_nullable(e), n == 0, "is_nullable")?;
        let mut rx = b.to_regex(e);
        // walk along the word once; leave it at some places
        let mut s = rx.initial_state();
        let sp: HashSet<u64> = few(n).into_iter().collect();
        for i in 0..n {
            if sp.contains(&i) {
                same(rx.next_byte(s), NextByte::ForcedByte(w[i as usize]), "hint inside the literal")?;
                same(rx.is_accepting(s), false, "acceptance inside the literal")?;
                for d in [b'a', b'b', b'c', b'd'] {
                    same(rx.transition(s, d).is_dead(), d != w[i as usize], "a wrong byte is dead")?;
                }
            }
            s = rx.transition(s, w[i as usize]);
        }
        same(rx.is_accepting(s), true, "acceptance at the end")?;
        same(rx.next_byte(s), NextByte::ForcedEOI, "hint at the end")?;
        expect(&mut rx, &w, true, "the literal")?;
        let mut x = w.clone();
        x.push(b'a');
        expect(&mut rx, &x, false, "the literal and one byte")?;
        Ok(())
    })
}

/// too long to read to the end (every step copies the rest): the first and wrong bytes only
fn literal_head(n: u64) -> R {
    let w = pat(n);
    on_small_stack(|| {
        for form in 0..3 {
            let a = match form {
                0 => lit(&w),
                1 => or(vec![lit(&w), RegexAst::Byte(b'z')]),
                _ => RegexAst::Prefixes(bx(lit(&w))),
            };
            let mut b = RegexBuilder::new();
            let e = b.mk(&a).map_err(|e| e.to_string())?;
            same(b.is_nullable(e), n == 0 || form == 2, "is_nullable")?;
            let mut rx = b.to_regex(e);
            let mut s = rx.initial_state();
            for i in 0..n.min(6) as usize {
                same(rx.is_accepting(s), form == 2, "acceptance inside the literal")?;
                same(rx.next_byte(s) == NextByte::ForcedEOI || s.is_dead(), false, "hint inside the literal")?;
                for d in [b'a', b'b', b'c', b'y'] {
                    if d != w[i] {
                        same(rx.transition(s, d).is_dead(), true, "a wrong byte is dead")?;
                    }
                }
                s = rx.transition(s, w[i]);
                same(s.is_dead(), false, "the right byte is not")?;
            }
            if n > 6 {
                same(rx.is_accepting(s), form == 2, "acceptance inside the literal")?;
            }
        }
        Ok(())
    })
}
fn same_byte(n: u64) -> R {
    on_small_stack(|| {
        let mut rx = compile(&lit(&vec![b'a'; n as usize]))?;
        expect(&mut rx, &vec![b'a'; n as usize], true, "a^n")?;
        expect(&mut rx, &vec![b'a'; n as usize + 1], false, "a^(n+1)")?;
        if n > 0 {
            expect(&mut rx, &vec![b'a'; n as usize - 1], false, "a^(n-1)")?;
        }
        // the same language as a repetition
        let mut b = RegexBuilder::new();
        let x = RegexAst::And(vec![lit(&vec![b'a'; n as usize]), not(rep(RegexAst::Byte(b'a'), n as u32, n as u32))]);
        let e = b.mk(&x).map_err(|e| e.to_string())?;
        if n <= 2000 {
            same(b.to_regex(e).always_empty(), true, "a^n without a{n}")?;
        }
        Ok(())
    })
}

fn nested(n: u64, f: impl Fn(u64, RegexAst) -> RegexAst + Send, leaf: RegexAst) -> impl FnOnce() -> RegexAst + Send {
    move || {
        let mut a = leaf;
        for i in 0..n {
            a = f(i, a);
        }
        a
    }
}

fn deep_cat_right(n: u64) -> R {
    with_ast(nested(n, |_, a| cat(vec![RegexAst::Byte(b'a'), a]), RegexAst::EmptyString), |a| {
        let mut rx = compile(a)?;
        expect(&mut rx, &vec![b'a'; n as usize], true, "a^n")?;
        expect(&mut rx, &vec![b'a'; n as usize + 1], false, "a^(n+1)")
    })
}
fn deep_cat_left(n: u64) -> R {
    with_ast(nested(n, |_, a| cat(vec![a, RegexAst::Byte(b'a')]), RegexAst::EmptyString), |a| {
        let mut rx = compile(a)?;
        expect(&mut rx, &vec![b'a'; n as usize], true, "a^n")?;
        expect(&mut rx, &vec![b'a'; n as usize + 1], false, "a^(n+1)")
    })
}
fn nots(n: u64) -> R {
    with_ast(nested(n, |_, a| not(a), RegexAst::Byte(b'a')), |a| {
        let mut rx = compile(a)?;
        expect(&mut rx, b"a", n % 2 == 0, "a")?;
        expect(&mut rx, b"", n % 2 == 1, "empty")?;
        expect(&mut rx, b"aa", n % 2 == 1, "aa")
    })
}
fn opt_left(n: u64) -> R {
    // e' = (e q)?
    with_ast(nested(n, |_, a| rep(cat(vec![a, RegexAst::Byte(b'q')]), 0, 1), RegexAst::EmptyString), |a| {
        let mut rx = compile(a)?;
        for i in few(n) {
            expect(&mut rx, &vec![b'q'; i as usize], true, "q^i")?;
        }
        expect(&mut rx, &vec![b'q'; n as usize], true, "q^n")?;
        expect(&mut rx, &vec![b'q'; n as usize + 1], false, "q^(n+1)")?;
        expect(&mut rx, b"qx", false, "qx")
    })
}
fn opt_right(n: u64) -> R {
    // e' = (q e)?
    with_ast(nested(n, |_, a| rep(cat(vec![RegexAst::Byte(b'q'), a]), 0, 1), RegexAst::EmptyString), |a| {
        let mut rx = compile(a)?;
        for i in spots(n) {
            expect(&mut rx, &vec![b'q'; i as usize], true, "q^i")?;
        }
        expect(&mut rx, &vec![b'q'; n as usize], true, "q^n")?;
        expect(&mut rx, &vec![b'q'; n as usize + 1], false, "q^(n+1)")
    })
}
fn or_right(n: u64) -> R {
    // e' = a e | b
    with_ast(nested(n, |_, a| or(vec![cat(vec![RegexAst::Byte(b'a'), a]), RegexAst::Byte(b'b')]), RegexAst::Byte(b'c')), |a| {
        let mut rx = compile(a)?;
        let mut w = |i: u64, c: u8, want: bool| {
            let mut v = vec![b'a'; i as usize];
            v.push(c);
            expect(&mut rx, &v, want, &format!("a^{i}{}", c as char))
        };
        for i in few(n) {
            w(i, b'b', true)?;
            w(i, b'c', false)?;
        }
        w(n, b'c', true)?;
        w(n, b'b', false)?;
        w(n + 1, b'b', false)
    })
}
fn and_right(n: u64) -> R {
    // e' = a e & not(zz)
    with_ast(
        nested(n, |_, a| RegexAst::And(vec![cat(vec![bset(b"ax"), a]), not(cat(vec![RegexAst::Byte(b'x'), any(), rep(any(), 0, INF)]))]), bset(b"ax")),
        |a| {
            let mut rx = compile(a)?;
            let l = n as usize + 1;
            expect(&mut rx, &vec![b'a'; l], true, "a^(n+1)")?;
            let mut w = vec![b'a'; l];
            w[l - 1] = b'x';
            expect(&mut rx, &w, true, "a^n x")?;
            if l > 1 {
                w[l - 2] = b'x';
                w[l - 1] = b'a';
                expect(&mut rx, &w, false, "x before the end")?;
            }
            expect(&mut rx, &vec![b'a'; l + 1], false, "too long")?;
            expect(&mut rx, &vec![b'a'; l - 1], false, "too short")
        },
    )
}
fn not_cat(n: u64) -> R {
    // e' = not(a e), innermost b
    with_ast(nested(n, |_, a| not(cat(vec![RegexAst::Byte(b'a'), a])), RegexAst::Byte(b'b')), |a| {
        let mut rx = compile(a)?;
        let member = |w: &[u8]| -> bool {
            // w in e_n: strip a's until the innermost or a mismatch decides
            let mut k = 0u64;
            while k < n && (k as usize) < w.len() && w[k as usize] == b'a' {
                k += 1;
            }
            let inner = if k == n { &w[k as usize..] == b"b" } else { true };
            // k levels of complement above it, plus one if the mismatch is inside a complement
            let v = inner;
            if k % 2 == 0 {
                v
            } else {
                !v
            }
        };
        for k in few(n).into_iter().chain([n, n + 1]) {
            for t in [&b""[..], b"b", b"c", b"bb", b"a"] {
                let mut w = vec![b'a'; k as usize];
                w.extend_from_slice(t);
                let m = member(&w);
                expect(&mut rx, &w, m, &format!("a^{k} {}", String::from_utf8_lossy(t)))?;
            }
        }
        Ok(())
    })
}
fn prefixes(n: u64) -> R {
    with_ast(nested(n, |_, a| RegexAst::Prefixes(bx(a)), lit(b"abc")), |a| {
        let mut rx = compile(a)?;
        for (w, m) in [("", n > 0), ("a", n > 0), ("ab", n > 0), ("abc", true), ("b", false), ("abcd", false)] {
            expect(&mut rx, w.as_bytes(), m, w)?;
        }
        Ok(())
    })
}
fn prefixes_cat(n: u64) -> R {
    // e' = prefixes(a e)
    with_ast(nested(n, |_, a| RegexAst::Prefixes(bx(cat(vec![RegexAst::Byte(b'a'), a]))), RegexAst::Byte(b'b')), |a| {
        let mut rx = compile(a)?;
        for i in few(n).into_iter().chain([n]) {
            expect(&mut rx, &vec![b'a'; i as usize], n > 0, "a^i")?;
            let mut w = vec![b'a'; i as usize];
            w.push(b'b');
            expect(&mut rx, &w, i == n, "a^i b")?;
        }
        expect(&mut rx, &vec![b'a'; n as usize + 1], false, "a^(n+1)")
    })
}
fn prefixes_not(n: u64) -> R {
    // prefixes(not(a^n any*)) is everything that can be extended to avoid it
    with_ast(
        move || RegexAst::Prefixes(bx(not(cat(vec![lit(&vec![b'a'; n as usize]), rep(any(), 0, INF)])))),
        |a| {
            let mut rx = compile(a)?;
            for i in few(n) {
                expect(&mut rx, &vec![b'a'; i as usize], i < n, "a^i")?;
            }
            expect(&mut rx, &vec![b'a'; n as usize], false, "a^n")
        },
    )
}
fn prefixes_literal(n: u64) -> R {
    let w = pat(n);
    let x = w.clone();
    with_ast(move || RegexAst::Prefixes(bx(lit(&x))), |a| {
        let mut rx = compile(a)?;
        for i in few(n) {
            expect(&mut rx, &w[..i as usize], true, "a prefix")?;
            let mut v = w[..i as usize].to_vec();
            v.push(b'z');
            expect(&mut rx, &v, false, "not a prefix")?;
        }
        expect(&mut rx, &w, true, "the word")
    })
}

fn word(i: u64) -> Vec<u8> {
    // fixed-length, spread over the alphabet
    let x = (i + 1).wrapping_mul(0x9E3779B97F4A7C15);
    (0..8).map(|k| b'a' + ((x >> (k * 8)) % 26) as u8).collect()
}
fn or_words(n: u64) -> R {
    let v: Vec<Vec<u8>> = (0..n).map(word).collect();
    let set: HashSet<Vec<u8>> = v.iter().cloned().collect();
    on_small_stack(|| {
        for as_pattern in [false, true] {
            let mut rx = if as_pattern {
                if n == 0 {
                    continue;
                }
                let s: Vec<String> = v.iter().map(|w| String::from_utf8(w.clone()).unwrap()).collect();
                match Regex::new(&s.join("|")) {
                    Ok(r) => r,
                    Err(e) => return Err(format!("pattern refused: {e}")),
                }
            } else {
                compile(&or(v.iter().map(|w| lit(w)).collect()))?
            };
            for i in spots(n).into_iter().chain((0..n).step_by((n as usize / 997).max(1))) {
                let w = &v[i as usize];
                expect(&mut rx, w, true, "a listed word")?;
                for k in 0..8 {
                    let mut x = w.clone();
                    x[k] = if x[k] == b'z' { b'a' } else { x[k] + 1 };
                    let m = set.contains(&x);
                    expect(&mut rx, &x, m, "a neighbour of a listed word")?;
                }
                expect(&mut rx, &w[..7], false, "a listed word cut short")?;
            }
            expect(&mut rx, b"", false, "the empty word")?;
        }
        Ok(())
    })
}
fn or_powers(n: u64) -> R {
    // a^0 | a^2 | a^4 ...
    with_ast(move || or((0..n).map(|i| lit(&vec![b'a'; 2 * i as usize])).collect()), |a| {
        let mut rx = compile(a)?;
        for i in spots(2 * n + 2) {
            expect(&mut rx, &vec![b'a'; i as usize], i % 2 == 0 && i / 2 < n, &format!("a^{i}"))?;
        }
        Ok(())
    })
}
fn or_chain(n: u64) -> R {
    // every word is a prefix of the next one; the far end is only looked at for small n
    with_ast(move || or((0..n).map(|i| cat(vec![lit(&vec![b'a'; i as usize]), RegexAst::Byte(b'b')])).collect()), |a| {
        let mut rx = compile(a)?;
        let to = (n + 2).min(104);
        for i in 0..to {
            let mut w = vec![b'a'; i as usize];
            expect(&mut rx, &w, false, &format!("a^{i}"))?;
            w.push(b'b');
            expect(&mut rx, &w, i < n, &format!("a^{i}b"))?;
        }
        Ok(())
    })
}
fn or_prefix_chain(n: u64) -> R {
    with_ast(move || or((0..n).map(|i| lit(&vec![b'a'; i as usize])).collect()), |a| {
        let mut rx = compile(a)?;
        let to = (n + 2).min(104);
        for i in 0..to {
            let mut w = vec![b'a'; i as usize];
            expect(&mut rx, &w, i < n, &format!("a^{i}"))?;
            w.push(b'b');
            expect(&mut rx, &w, false, &format!("a^{i}b"))?;
        }
        Ok(())
    })
}
fn or_classes(n: u64) -> R {
    // [ab]x^i for many i, not literals, so no trie
    with_ast(
        move || or((0..n).map(|i| cat(vec![bset(b"ab"), rep(RegexAst::Byte(b'x'), i as u32, i as u32), bset(b"cd")])).collect()),
        |a| {
            let mut rx = compile(a)?;
            for i in few(n).into_iter().chain([n]) {
                let mut w = vec![b'b'];
                w.extend(vec![b'x'; i as usize]);
                w.push(b'd');
                expect(&mut rx, &w, i < n, &format!("bx^{i}d"))?;
            }
            Ok(())
        },
    )
}
fn and_nots(n: u64) -> R {
    with_ast(move || RegexAst::And((0..n).map(|i| not(lit(&word(i)))).collect()), |a| {
        let mut rx = compile(a)?;
        for i in few(n) {
            expect(&mut rx, &word(i), false, "a forbidden word")?;
            expect(&mut rx, &word(i)[1..], true, "another word")?;
        }
        expect(&mut rx, b"", true, "the empty word")
    })
}
fn and_contains(n: u64) -> R {
    // contains none of n long words: the intersection stays small enough to walk one input
    with_ast(
        move || {
            RegexAst::And(
                (0..n)
                    .map(|i| not(cat(vec![rep(any(), 0, INF), lit(&word(i)), rep(any(), 0, INF)])))
                    .collect(),
            )
        },
        |a| {
            let mut rx = compile(a)?;
            for i in few(n) {
                let mut w = b"zz".to_vec();
                w.extend(word(i));
                expect(&mut rx, &w[..9], true, "all but the last byte of a forbidden word")?;
                expect(&mut rx, &w, false, "a forbidden word inside")?;
                w.extend(b"yy");
                expect(&mut rx, &w, false, "a forbidden word inside")?;
            }
            Ok(())
        },
    )
}

/// a{n}, a{0,n}, a{n,}: answers that need no long input
fn counts(n: u64) -> R {
    on_small_stack(|| {
        let n32 = n as u32;
        let a = || RegexAst::Byte(b'a');
        for (lo, hi) in [(n32, n32), (0, n32), (n32, INF), (n32 / 2, n32), (1.min(n32), n32)] {
            let what = format!("a{{{lo},{hi}}}");
            let mut b = RegexBuilder::new();
            let e = b.mk(&rep(a(), lo, hi)).map_err(|e| e.to_string())?;
            same(b.is_nullable(e), lo == 0, &what)?;
            let mut rx = b.to_regex(e);
            same(rx.always_empty(), false, &what)?;
            let mut s = rx.initial_state();
            for i in 0..600u64 {
                let acc = i >= lo as u64 && (hi == INF || i <= hi as u64);
                same(rx.is_accepting(s), acc, &format!("{what} after a^{i}"))?;
                let live = hi == INF || i <= hi as u64;
                same(s.is_dead(), !live, &format!("{what} dead after a^{i}"))?;
                if live {
                    same(rx.transition(s, b'b').is_dead(), true, &format!("{what} after a^{i}b"))?;
                    match rx.next_byte(s) {
                        NextByte::ForcedByte(x) => same((x, acc), (b'a', false), &format!("{what} hint after a^{i}"))?,
                        NextByte::ForcedEOI => same((i, acc), (hi as u64, true), &format!("{what} hint after a^{i}"))?,
                        NextByte::Dead => return Err(format!("{what} hint after a^{i}: dead")),
                        NextByte::SomeBytes => {}
                    }
                }
                s = rx.transition(s, b'a');
            }
        }
        // as a pattern
        if n < 1 << 16 {
            match Regex::new(&format!("a{{{n}}}")) {
                Ok(mut rx) => {
                    same(rx.is_match_bytes(&vec![b'a'; n as usize]), true, "pattern a{n} on a^n")?;
                    same(rx.is_match_bytes(&vec![b'a'; n as usize + 1]), false, "pattern a{n} on a^(n+1)")?;
                }
                Err(e) => return Err(format!("pattern refused: {e}")),
            }
        } else if let Ok(mut rx) = Regex::new(&format!("a{{{n}}}")) {
            same(rx.always_empty(), false, "pattern")?;
            same(rx.is_match("aaaa"), false, "pattern on aaaa")?;
        }
        Ok(())
    })
}
fn count_walk(n: u64) -> R {
    on_small_stack(|| {
        let n32 = n as u32;
        let w = vec![b'a'; n as usize + 2];
        for (lo, hi) in [(n32, n32), (0, n32), (n32, INF), (n32 / 2 + 1, n32 + 1)] {
            let mut rx = compile(&rep(RegexAst::Byte(b'a'), lo, hi))?;
            for l in [n.saturating_sub(1), n, n + 1, n + 2] {
                let m = l >= lo as u64 && (hi == INF || l <= hi as u64);
                expect(&mut rx, &w[..l as usize], m, &format!("a{{{lo},{hi}}} on a^{l}"))?;
            }
        }
        Ok(())
    })
}
/// (a{p,q}){r,s}: lower and upper length as exact integers
fn count_product(n: u64) -> R {
    let big: [u32; 9] = [2, 3, 255, 256, 65535, 65536, 65537, 1 << 31, INF - 1];
    let k = big.len() as u64;
    let (x, y) = (big[(n % k) as usize], big[(n / k % k) as usize]);
    on_small_stack(|| {
        let a = || RegexAst::Byte(b'a');
        let shapes: Vec<(RegexAst, u64, u64)> = vec![
            (rep(rep(a(), x, x), y, y), x as u64 * y as u64, x as u64 * y as u64),
            (rep(rep(a(), 0, x), 0, y), 0, x as u64 * y as u64),
            (rep(rep(a(), 0, x), y, y), 0, x as u64 * y as u64),
            (rep(rep(a(), 1, x), y, y), y as u64, x as u64 * y as u64),
            (rep(rep(a(), x, INF), y, y), x as u64 * y as u64, u64::MAX),
            (rep(rep(a(), x, INF), y, INF), x as u64 * y as u64, u64::MAX),
            (rep(rep(a(), 0, x), y, INF), 0, u64::MAX),
            (cat(vec![rep(a(), x, x), rep(a(), y, y)]), x as u64 + y as u64, x as u64 + y as u64),
            (cat(vec![rep(a(), x, INF), rep(a(), y, INF)]), x as u64 + y as u64, u64::MAX),
            (cat(vec![rep(a(), 0, x), rep(a(), 0, y)]), 0, x as u64 + y as u64),
            (cat(vec![rep(a(), x, INF), rep(a(), 0, y)]), x as u64, u64::MAX),
        ];
        for (i, (t, lo, hi)) in shapes.iter().enumerate() {
            let what = format!("shape {i} with {x} and {y}");
            let mut b = RegexBuilder::new();
            let e = b.mk(t).map_err(|e| e.to_string())?;
            same(b.is_nullable(e), *lo == 0, &what)?;
            let mut rx = b.to_regex(e);
            same(rx.always_empty(), false, &what)?;
            let mut s = rx.initial_state();
            // where a string splits in many ways the states grow with every step
            let top = (x as u64 * y as u64 + 2).min(if [0, 7, 8].contains(&i) { 1200 } else { 60 });
            for l in 0..=top {
                same(rx.is_accepting(s), l >= *lo && l <= *hi, &format!("{what} after a^{l}"))?;
                same(s.is_dead(), l > *hi, &format!("{what}: dead after a^{l}"))?;
                s = rx.transition(s, b'a');
            }
        }
        Ok(())
    })
}
/// nested repetitions whose length is 2^n
fn count_tower(n: u64) -> R {
    for (lo, kind) in [(2u32, 0), (0, 1), (1, 2)] {
        with_ast(nested(n, move |_, a| rep(a, lo, 2), RegexAst::Byte(b'a')), |a| {
            let mut b = RegexBuilder::new();
            let e = b.mk(a).map_err(|e| e.to_string())?;
            let null = kind == 1 && n > 0;
            same(b.is_nullable(e), null, "is_nullable")?;
            let max = if n < 40 { 1u64 << n } else { u64::MAX };
            let min = match kind {
                0 => max,
                _ if null => 0,
                _ => 1,
            };
            if kind != 0 && n > 12 {
                // the ambiguity makes the states large; a few steps only
                let mut rx = match b.to_regex_limited(e, 1 << 22) {
                    Ok(r) => r,
                    Err(_) => return Ok(()),
                };
                return expect(&mut rx, b"a", true, "a");
            }
            let mut rx = b.to_regex(e);
            let mut s = rx.initial_state();
            for l in 0..=(max.saturating_add(1)).min(if kind == 0 { 3000 } else { 300 }) {
                same(rx.is_accepting(s), l >= min && l <= max, &format!("kind {kind} after a^{l}"))?;
                same(s.is_dead(), l > max, &format!("kind {kind}: dead after a^{l}"))?;
                s = rx.transition(s, b'a');
            }
            Ok(())
        })?;
    }
    Ok(())
}
fn lookahead(n: u64) -> R {
    on_small_stack(|| {
        let n = n.max(1);
        let x = rep(RegexAst::Byte(b'b'), n as u32, n as u32);
        let mut rx = compile(&cat(vec![rep(RegexAst::Byte(b'a'), 0, INF), RegexAst::LookAhead(bx(x))]))?;
        for (pre, post, want) in [(0, n, true), (3, n, true), (3, n - 1, n == 0), (0, n + 1, false), (1, n + 1, false)] {
            let mut w = vec![b'a'; pre as usize];
            w.extend(vec![b'b'; post as usize]);
            same(rx.lookahead_len_bytes(&w), if want { Some(n as usize) } else { None }, &format!("a^{pre} b^{post}"))?;
        }
        let p = format!("a*(?P<stop>b{{{n}}})");
        if let Ok(mut r2) = Regex::new(&p) {
            let w = vec![b'b'; n as usize];
            same(r2.lookahead_len_bytes(&w), Some(n as usize), &p)?;
        }
        Ok(())
    })
}
fn lookahead_word(n: u64) -> R {
    let w = pat(n.max(1));
    on_small_stack(|| {
        let mut rx = compile(&cat(vec![rep(any(), 0, 3), RegexAst::LookAhead(bx(lit(&w)))]))?;
        let mut x = b"zz".to_vec();
        x.extend(&w);
        same(rx.lookahead_len_bytes(&x), Some(w.len()), "zz and the word")?;
        same(rx.lookahead_len_bytes(&x[..x.len() - 1]).is_some(), false, "cut short")?;
        same(rx.lookahead_len_bytes(&w), Some(w.len()), "the word")
    })
}
fn long_pattern(n: u64) -> R {
    let w = pat(n);
    on_small_stack(|| {
        let s = String::from_utf8(w.clone()).unwrap();
        let mut rx = Regex::new(&s).map_err(|e| e.to_string())?;
        expect(&mut rx, &w, true, "the word")?;
        let spaced: String = s.chars().take(400).flat_map(|c| [c, '?']).collect();
        let mut rx = Regex::new(&spaced).map_err(|e| e.to_string())?;
        expect(&mut rx, b"", true, "optional letters, none present")?;
        expect(&mut rx, &w[..w.len().min(3)], true, "optional letters, the first three")?;
        expect(&mut rx, b"z", false, "optional letters, another one")
    })
}
fn nested_pattern(n: u64) -> R {
    on_small_stack(|| {
        for (open, close) in [("(", ")"), ("(?:", ")*"), ("(a|", ")"), ("(", "b)?")] {
            let s = format!("{}x{}", open.repeat(n as usize), close.repeat(n as usize));
            // the parser limits nesting; what it accepts must work
            match Regex::new(&s) {
                Ok(mut rx) => expect(&mut rx, b"x", close != "b)?" || n == 0, "x")?,
                Err(_) if n > 100 => {}
                Err(e) => return Err(format!("refused: {e}")),
            }
        }
        Ok(())
    })
}
fn unicode(n: u64) -> R {
    on_small_stack(|| {
        let n = n.max(1);
        let mut rx = match Regex::new(&format!("\\w{{{n}}}")) {
            Ok(r) => r,
            Err(_) if n > 1000 => return Ok(()),
            Err(e) => return Err(e.to_string()),
        };
        let ok: String = "a\u{e9}\u{4e2d}\u{10400}".chars().cycle().take(n as usize).collect();
        expect(&mut rx, ok.as_bytes(), true, "n word characters")?;
        expect(&mut rx, format!("{ok}a").as_bytes(), false, "one more")?;
        expect(&mut rx, &ok.as_bytes()[..ok.len() - 1], false, "cut")?;
        let bad: String = ok.chars().skip(1).chain(['-']).collect();
        expect(&mut rx, bad.as_bytes(), false, "the last is not a word character")
    })
}
fn long_input(n: u64) -> R {
    on_small_stack(|| {
        let mut rx = compile(&rep(lit(b"ab"), 0, INF))?;
        let w: Vec<u8> = b"ab".iter().copied().cycle().take(n as usize).collect();
        expect(&mut rx, &w, n % 2 == 0, "(ab)*")?;
        let mut rx = Regex::new("(a|b)*b(a|b){3}").map_err(|e| e.to_string())?;
        expect(&mut rx, &w, n >= 4 && w[n as usize - 4] == b'b', "fourth from the end")?;
        let mut rx = Regex::new("[^x]*(?P<stop>x)").map_err(|e| e.to_string())?;
        let mut v = w.clone();
        v.push(b'x');
        same(rx.lookahead_len_bytes(&v), Some(1), "stop after a long input")?;
        Ok(())
    })
}
fn containment(n: u64) -> R {
    on_small_stack(|| {
        let mut b = RegexBuilder::new();
        let fuel = if n > 300 { 200_000 } else { u64::MAX };
        for (x, y, want) in [
            (format!("a{{0,{n}}}"), format!("a{{0,{}}}", n + 1), true),
            (format!("a{{0,{}}}", n + 1), format!("a{{0,{n}}}"), false),
            (format!("a{{{n}}}"), format!("a{{{n},}}"), true),
            (format!("a{{{n},}}"), format!("a{{{}}}", n), false),
            (format!("(aa){{{n}}}"), format!("a{{{}}}", 2 * n), true),
            (format!("[ab]{{{n}}}"), format!("[a-c]{{{n}}}|a{{{}}}", n + 1), true),
            (format!("[ab]{{0,{}}}c", n), "[a-z]*".to_string(), true),
        ] {
            match b.is_contained_in(&x, &y, fuel) {
                Ok(g) => same(g, want, &format!("{x} in {y}"))?,
                Err(e) if fuel == u64::MAX => return Err(format!("{x} in {y}: {e}")),
                Err(_) => {}
            }
        }
        Ok(())
    })
}
fn json_literal(n: u64) -> R {
    let w: Vec<u8> = pat(n).iter().map(|b| [b'"', b'\n', b'x'][(b - b'a') as usize]).collect();
    on_small_stack(|| {
        let mut b = RegexBuilder::new();
        let e = b.mk(&lit(&w)).map_err(|e| e.to_string())?;
        let q = b.json_quote(e, &JsonQuoteOptions::no_unicode()).map_err(|e| e.to_string())?;
        let mut rx = b.to_regex(q);
        let mut x = vec![];
        for c in &w {
            match c {
                b'"' => x.extend(b"\\\""),
                b'\n' => x.extend(b"\\n"),
                c => x.push(*c),
            }
        }
        expect(&mut rx, &x, true, "the encoding")?;
        if !x.is_empty() {
            expect(&mut rx, &x[..x.len() - 1], false, "cut")?;
        }
        if w != x {
            expect(&mut rx, &w, false, "not encoded")?;
        }
        Ok(())
    })
}
fn json_nest(n: u64) -> R {
    with_ast(nested(n, |_, a| rep(cat(vec![lit(b"\""), a]), 0, 1), RegexAst::Byte(b'\n')), |a| {
        let mut b = RegexBuilder::new();
        let e = b.mk(a).map_err(|e| e.to_string())?;
        let q = b.json_quote(e, &JsonQuoteOptions::with_unicode()).map_err(|e| e.to_string())?;
        let mut rx = b.to_regex(q);
        for i in few(n) {
            let x = b"\\\"".repeat(i as usize);
            expect(&mut rx, &x, i == 0 || i < n, "i quotes")?;
        }
        let mut x = b"\\\"".repeat(n as usize);
        expect(&mut rx, &x, false, "n quotes")?;
        x.extend(b"\\n");
        expect(&mut rx, &x, true, "n quotes and a newline")
    })
}
fn and_tower(n: u64) -> R {
    let tower = |k: u64| nested(k, |_, a| rep(cat(vec![a, RegexAst::Byte(b'q')]), 0, 1), RegexAst::EmptyString)();
    with_ast(move || RegexAst::And(vec![tower(n), not(tower(n))]), |a| {
        same(compile(a)?.always_empty(), true, "x and not x")
    })?;
    let m = n.max(1);
    with_ast(move || RegexAst::And(vec![tower(m), not(tower(m - 1))]), |a| {
        let mut rx = compile(a)?;
        same(rx.always_empty(), false, "tower(n) without tower(n-1)")?;
        expect(&mut rx, &vec![b'q'; m as usize], true, "q^n")?;
        expect(&mut rx, &vec![b'q'; m as usize - 1], false, "q^(n-1)")
    })?;
    if n <= 400 {
        with_ast(move || RegexAst::And(vec![tower(n), not(rep(RegexAst::Byte(b'q'), 0, n as u32))]), |a| {
            same(compile(a)?.always_empty(), true, "tower(n) without q{0,n}")
        })?;
    }
    Ok(())
}
/// 2^(k+1) states
fn many_states(k: u64) -> R {
    on_small_stack(|| {
        let ab = || bset(b"ab");
        let mut rx = compile(&cat(vec![rep(ab(), 0, INF), RegexAst::Byte(b'a'), rep(ab(), k as u32, k as u32)]))?;
        // state = last k+1 letters
        let mask = (1u64 << (k + 1)) - 1;
        let mut seen: std::collections::HashMap<StateID, u64> = Default::default();
        let s0 = rx.initial_state();
        seen.insert(s0, 0);
        let mut todo = vec![s0];
        while let Some(s) = todo.pop() {
            let h = seen[&s];
            same(rx.is_accepting(s), h >> k & 1 == 1, "acceptance")?;
            for (b, x) in [(b'a', 1u64), (b'b', 0)] {
                let t = rx.transition(s, b);
                let g = (h << 1 | x) & mask;
                match seen.get(&t) {
                    Some(o) => same(*o, g, "two different histories in one state")?,
                    None => {
                        seen.insert(t, g);
                        todo.push(t);
                    }
                }
            }
        }
        same(seen.len() as u64, 1 << (k + 1), "number of states")?;
        // and again, from the filled table
        for (s, h) in &seen {
            same(seen[&rx.transition(*s, b'a')], (h << 1 | 1) & mask, "second time")?;
            same(rx.is_accepting(*s), h >> k & 1 == 1, "second time")?;
        }
        Ok(())
    })
}
/// little fuel on a huge question: an error, soon
fn fuel(n: u64) -> R {
    on_small_stack(|| {
        let t0 = std::time::Instant::now();
        let mut b = RegexBuilder::new();
        let r = b.is_contained_in(
            &format!("([ab]*a[ab]{{{n}}})+c"),
            &format!("([ab]*b[ab]{{{}}})+c", n + 1),
            10_000,
        );
        if let Ok(true) = r {
            return Err("contained".into());
        }
        let mut rs = vec![];
        for p in [7u32, 11, 13, 17, 19] {
            rs.push(not(rep(rep(RegexAst::Byte(b'a'), p, p), n as u32 + 1, INF)));
        }
        rs.push(rep(rep(RegexAst::Byte(b'a'), 7 * 11 * 13, 7 * 11 * 13), 1, INF));
        let e = b.mk(&RegexAst::And(rs)).map_err(|e| e.to_string())?;
        for f in [0, 1, 10, 1000] {
            b.to_regex_limited(e, f).ok();
        }
        if t0.elapsed().as_secs() > 100 {
            return Err("10000 units of fuel last for more than 100 s".into());
        }
        Ok(())
    })
}
/// many expressions in one builder
fn many_exprs(n: u64) -> R {
    on_small_stack(|| {
        let mut b = RegexBuilder::new();
        let mut refs = vec![];
        for i in 0..n {
            refs.push(b.mk(&RegexAst::Or(vec![lit(&word(i)), RegexAst::Byte(b'0' + (i % 10) as u8)])).map_err(|e| e.to_string())?);
        }
        for i in spots(n) {
            let again = b
                .mk(&RegexAst::Or(vec![lit(&word(i)), RegexAst::Byte(b'0' + (i % 10) as u8)]))
                .map_err(|e| e.to_string())?;
            same(again, refs[i as usize], "the same expression again")?;
        }
        for i in few(n) {
            let mut rx = b.to_regex(refs[i as usize]);
            expect(&mut rx, &word(i), true, "its word")?;
            expect(&mut rx, &[b'0' + (i % 10) as u8], true, "its digit")?;
            expect(&mut rx, &[b'0' + ((i + 1) % 10) as u8], false, "another digit")?;
        }
        Ok(())
    })
}
/// cloning and dropping
fn clones(n: u64) -> R {
    with_ast(nested(n, |_, a| or(vec![cat(vec![RegexAst::Byte(b'a'), a]), RegexAst::Byte(b'b')]), RegexAst::Byte(b'c')), |a| {
        let mut b = RegexBuilder::new();
        let e = b.mk(a).map_err(|e| e.to_string())?;
        let b2 = b.clone();
        drop(b);
        let mut rx = b2.to_regex(e);
        drop(b2);
        let mut w = vec![b'a'; n as usize];
        w.push(b'c');
        expect(&mut rx, &w, true, "a^n c")?;
        let mut c = rx.clone();
        drop(rx);
        expect(&mut c, &w, true, "a^n c on the copy")?;
        expect(&mut c, &w[..n as usize], false, "a^n on the copy")
    })
}
/// wide and deep mixture: union of n right-nested chains of depth n
fn grid(n: u64) -> R {
    with_ast(
        move || {
            or((0..n)
                .map(|i| {
                    let l = b'a' + (i % 20) as u8;
                    nested(n, move |_, a| rep(cat(vec![bset(&[l, b'z']), a]), 0, 1), RegexAst::EmptyString)()
                })
                .collect())
        },
        |a| {
            let mut rx = compile(a)?;
            for i in few(n) {
                let l = b'a' + (i % 20) as u8;
                expect(&mut rx, &vec![l; n as usize], true, "l^n")?;
                expect(&mut rx, &vec![l; n as usize + 1], false, "l^(n+1)")?;
                if n > 1 {
                    let mut w = vec![b'z'; n as usize];
                    w[0] = l;
                    expect(&mut rx, &w, true, "l z^(n-1)")?;
                    w[1] = if l == b'a' { b'b' } else { b'a' };
                    expect(&mut rx, &w, false, "two chains mixed")?;
                }
            }
            Ok(())
        },
    )
}

pub fn shapes() -> Vec<Shape> {
    macro_rules! s {
        ($name:literal, $f:ident, $q:expr, $t:expr, $d:expr, $what:literal) => {
            Shape { name: $name, what: $what, run: $f, quick: $q, thorough: $t, dense: $d }
        };
    }
    vec![
        s!("literal", literal, 20000, 33000, 70, "a literal of n bytes, byte by byte"),
        s!("literal-head", literal_head, 300_000, 3_000_000, 70, "the first bytes of a literal of n bytes"),
        s!("same-byte", same_byte, 20000, 33000, 70, "a^n as a literal and as a repetition"),
        s!("deep-cat-right", deep_cat_right, 17000, 33000, 70, "concatenation nested n deep to the right"),
        s!("deep-cat-left", deep_cat_left, 17000, 33000, 70, "concatenation nested n deep to the left"),
        s!("nots", nots, 1000000, 4000000, 70, "n complements"),
        s!("optional-left", opt_left, 33000, 140000, 70, "(...((q)?q)?q...)?"),
        s!("optional-right", opt_right, 140000, 1100000, 70, "(q(q(...)?)?)?"),
        s!("or-right", or_right, 140000, 540000, 70, "a(a(...|b)|b)|b"),
        s!("and-right", and_right, 70000, 270000, 70, "nested intersections"),
        s!("not-cat", not_cat, 140000, 1100000, 70, "nested complements of concatenations"),
        s!("prefixes", prefixes, 100_000, 1_000_000, 70, "n prefix closures"),
        s!("prefixes-cat", prefixes_cat, 33000, 140000, 70, "nested prefix closures of concatenations"),
        s!("prefixes-not", prefixes_not, 4100, 16400, 70, "prefix closure of a complement with a long literal"),
        s!("prefixes-literal", prefixes_literal, 10000, 17000, 70, "prefix closure of a long literal"),
        s!("or-words", or_words, 66000, 270000, 70, "union of n words"),
        s!("or-powers", or_powers, 1030, 4100, 70, "a^0|a^2|a^4..."),
        s!("or-chain", or_chain, 6200, 16400, 70, "b|ab|aab|..."),
        s!("or-prefix-chain", or_prefix_chain, 6200, 16400, 70, "a^0|a^1|a^2..."),
        s!("or-classes", or_classes, 1030, 4100, 70, "union of n non-literal words"),
        s!("and-nots", and_nots, 66000, 270000, 70, "intersection of n complements"),
        s!("and-contains", and_contains, 2000, 8200, 40, "none of n words inside"),
        s!("counts", counts, (1 << 32) - 2, (1 << 32) - 2, 70, "a{n}, a{0,n}, a{n,}: first 600 states"),
        s!("count-walk", count_walk, 262144, 2097152, 70, "the same walked to the end"),
        s!("count-product", count_product, 80, 80, 80, "repetitions of repetitions beyond 32 bits"),
        s!("count-tower", count_tower, 64, 200, 64, "(((a{2}){2})...){2}"),
        s!("lookahead", lookahead, 66000, 530000, 70, "a*(?P<stop>b{n})"),
        s!("lookahead-word", lookahead_word, 5000, 17000, 70, "a long literal lookahead"),
        s!("long-pattern", long_pattern, 5000, 20_000, 70, "a pattern of n characters"),
        s!("nested-pattern", nested_pattern, 100_000, 1_000_000, 70, "n nested groups"),
        s!("unicode", unicode, 4100, 17000, 20, "\\w{n}"),
        s!("long-input", long_input, 20_000_000, 200_000_000, 70, "inputs of n bytes"),
        s!("containment", containment, 4096, 10_000, 70, "containment of counted expressions"),
        s!("json-literal", json_literal, 8200, 17000, 70, "quoting a literal of n bytes"),
        s!("json-nest", json_nest, 66000, 270000, 70, "quoting an expression nested n deep"),
        s!("and-tower", and_tower, 2100, 8200, 40, "x and not x for a deep x"),
        s!("many-states", many_states, 17, 19, 16, "2^(n+1) states"),
        s!("fuel", fuel, 1 << 20, 1 << 30, 12, "little fuel, large question"),
        s!("many-expressions", many_exprs, 300_000, 3_000_000, 40, "n expressions in one builder"),
        s!("clones", clones, 100_000, 1_000_000, 40, "cloning and dropping a deep expression"),
        s!("grid", grid, 130, 520, 24, "union of n chains nested n deep"),
    ]
}

fn sizes(s: &Shape, tier: Tier) -> Vec<u64> {
    let max = tier.pick(s.quick, s.thorough);
    let mut v: Vec<u64> = (0..=s.dense.min(max)).collect();
    let mut p = 64u64;
    while p <= max {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    v.push(max);
    v.retain(|x| *x <= max);
    v.sort_unstable();
    v.dedup();
    v
}

pub struct Large;

impl Check for Large {
    type Case = (usize, u64);
    type Scratch = ();
    fn id(&self) -> &'static str {
        "C17"
    }
    fn scratch(&self) {}
    fn families(&self, tier: Tier) -> Vec<Fam<(usize, u64)>> {
        let mut v = vec![];
        for (i, s) in shapes().iter().enumerate() {
            // the largest first, so that they overlap
            let mut z = sizes(s, tier);
            z.reverse();
            v.push(Fam::list(
                s.name,
                &format!("{}; {} sizes, largest {}", s.what, z.len(), z[0]),
                z.into_iter().map(|n| (i, n)).collect(),
            ));
        }
        v
    }
    fn text(&self, c: &(usize, u64)) -> String {
        format!("{} {}", shapes()[c.0].name, c.1)
    }
    fn parse(&self, s: &str) -> (usize, u64) {
        let (k, n) = s.split_once(' ').unwrap();
        (shapes().iter().position(|x| x.name == k).unwrap(), n.parse().unwrap())
    }
    fn run(&self, c: &(usize, u64), _w: &mut (), st: &mut Stats) -> Result<(), String> {
        let s = &shapes()[c.0];
        st.states += 1;
        st.transitions += 1;
        st.outcome(&(c.0, c.1));
        if c.1 > 300 && !is_child() {
            return in_child("C17", &self.text(c), 600, st);
        }
        (s.run)(c.1)
    }
    fn case_timeout(&self) -> u64 {
        700
    }
    fn rule(&self) -> String {
        "every shape is instantiated for all sizes up to its dense bound and for powers of two and their neighbours \
         up to its limit, and run on the real code on a 512 KB stack (large sizes in a process of their own); answers \
         are compared with closed forms; states counts instances".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "sizes between the dense bound and the limit are represented by the ladder only".into(),
            "RegexAst trees are built and dropped by the check on a large stack (their derived destructor is recursive)".into(),
        ]
    }
}
