//! Alternations of literals: every subset of a small word list, in several orders and forms.

use crate::explore::*;
use crate::families::*;
use crate::lang::*;
use crate::run::*;
use crate::term::*;
use crate::util::*;
use derivre::{Regex, RegexAst, RegexBuilder};
use std::sync::Arc;

#[derive(Clone)]
pub struct WCase {
    pub words: Vec<Vec<u8>>,
    /// 0 Or(ByteLiteral) 1 Or(Cat(Byte)) 2 Or of Literal 3 pattern 4 incremental refs 5 nested halves
    /// 6 pattern with a class tail
    pub form: u8,
    /// 0 none 1 literal tail on each word 2 non-literal tail on each word 3 common tail outside
    /// 4 complement 5 leading star outside
    pub ctx: u8,
    pub part: Option<Arc<Part>>,
}

fn all_words(letters: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut r = vec![vec![]];
    let mut last = r.clone();
    for _ in 0..max {
        let mut n = vec![];
        for w in &last {
            for &c in letters {
                let mut x: Vec<u8> = w.clone();
                x.push(c);
                n.push(x);
            }
        }
        r.extend(n.iter().cloned());
        last = n;
    }
    r
}

fn order(mut w: Vec<Vec<u8>>, k: u64) -> Vec<Vec<u8>> {
    match k {
        0 => w,
        1 => {
            w.reverse();
            w
        }
        2 => {
            // repeats: first word again at the end, a middle one doubled
            if let Some(x) = w.first().cloned() {
                let m = w[w.len() / 2].clone();
                w.insert(w.len() / 2, m);
                w.push(x);
            }
            w
        }
        _ => {
            // interleave
            let n = w.len();
            (0..n).map(|i| w[(i * 7 + 3) % n].clone()).collect::<Vec<_>>().into_iter().chain(w.clone()).collect()
        }
    }
}

pub struct Words;

impl WCase {
    fn tails(&self) -> (Option<Term>, Option<Term>, Option<Term>) {
        // (tail per word, outer tail, outer head)
        match self.ctx {
            1 => (Some(lit("xy")), None, None),
            2 => (Some(Term::Cat(vec![star(range(b'x', b'y')), rep(byte(b'a'), 0, 1)])), None, None),
            3 => (None, Some(star(byte(b'a'))), None),
            5 => (None, None, Some(star(byte(b'a')))),
            _ => (None, None, None),
        }
    }
    fn reference(&self) -> Term {
        let (t, o, h) = self.tails();
        let alts = Term::Or(
            self.words
                .iter()
                .map(|w| match &t {
                    Some(t) => Term::Cat(vec![Term::Lit(w.clone()), t.clone()]),
                    None => Term::Lit(w.clone()),
                })
                .collect(),
        );
        let r = match (o, h) {
            (Some(o), _) => Term::Cat(vec![alts, o]),
            (_, Some(h)) => Term::Cat(vec![h, alts]),
            _ => alts,
        };
        if self.ctx == 4 {
            not(r)
        } else {
            r
        }
    }
    fn compile(&self) -> Result<Regex, String> {
        let (t, o, h) = self.tails();
        let mut b = RegexBuilder::new();
        let words: Vec<RegexAst> = self
            .words
            .iter()
            .map(|w| {
                let l = match self.form {
                    1 => RegexAst::Concat(w.iter().map(|&c| RegexAst::Byte(c)).collect()),
                    2 => match String::from_utf8(w.clone()) {
                        Ok(s) => RegexAst::Literal(s),
                        Err(_) => RegexAst::ByteLiteral(w.clone()),
                    },
                    _ => RegexAst::ByteLiteral(w.clone()),
                };
                match &t {
                    Some(t) => RegexAst::Concat(vec![l, t.to_ast()]),
                    None => l,
                }
            })
            .collect();
        let e = |e: anyhow::Error| format!("building failed: {e}");
        let alts = match self.form {
            3 | 6 => {
                let s: Vec<String> =
                    self.words.iter().map(|w| String::from_utf8(w.clone()).unwrap()).collect();
                let tail = match self.ctx {
                    1 => "xy",
                    2 => "[x-y]*a?",
                    _ => "",
                };
                let v: Vec<String> = s.iter().map(|w| format!("{w}{tail}")).collect();
                let pat = if self.form == 3 { v.join("|") } else { format!("(?:(?:{}))", v.join(")|(?:")) };
                RegexAst::ExprRef(b.mk_regex(&pat).map_err(e)?)
            }
            4 => {
                let mut acc = RegexAst::NoMatch;
                for w in words {
                    acc = RegexAst::ExprRef(b.mk(&RegexAst::Or(vec![acc, w])).map_err(e)?);
                }
                acc
            }
            5 => {
                let k = words.len() / 2;
                RegexAst::Or(vec![RegexAst::Or(words[..k].to_vec()), RegexAst::Or(words[k..].to_vec())])
            }
            _ => RegexAst::Or(words),
        };
        let mut r = match (o, h) {
            (Some(o), _) => RegexAst::Concat(vec![alts, o.to_ast()]),
            (_, Some(h)) => RegexAst::Concat(vec![h.to_ast(), alts]),
            _ => alts,
        };
        if self.ctx == 4 {
            r = RegexAst::Not(Box::new(r));
        }
        let x = b.mk(&r).map_err(e)?;
        Ok(b.to_regex(x))
    }
}

impl Check for Words {
    type Case = WCase;
    type Scratch = Refs;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn scratch(&self) -> Refs {
        Refs::new()
    }
    fn families(&self, tier: Tier) -> Vec<Fam<WCase>> {
        let part = Arc::new(Part::from_sets(&[
            bset(|b| b == b'a'),
            bset(|b| b == b'b'),
            bset(|b| b == b'x'),
            bset(|b| b == b'y'),
        ]));
        let mut fams = vec![];
        // all permutations of all subsets of the 7 words of length <= 2 (thorough) / all orders of <= 4 words
        let w2 = all_words(b"ab", 2);
        {
            let mut v = vec![];
            let maxn = tier.pick(5, 6);
            for m in 0u32..1 << w2.len() {
                let sub: Vec<Vec<u8>> = (0..w2.len()).filter(|i| m >> i & 1 == 1).map(|i| w2[i].clone()).collect();
                let n = sub.len();
                if n > maxn {
                    continue;
                }
                let f: u64 = (1..=n as u64).product();
                for i in 0..f {
                    let words: Vec<Vec<u8>> = permutation(n, i).into_iter().map(|j| sub[j].clone()).collect();
                    v.push(words);
                }
            }
            let n = v.len() as u64;
            let part = part.clone();
            fams.push(Fam::new(
                "permutations",
                &format!("every order of every subset (up to {maxn} words) of the words of length <= 2, 7 forms, 6 contexts"),
                n * 7 * 6,
                move |i| {
                    Some(WCase {
                        words: v[(i % n) as usize].clone(),
                        form: (i / n % 7) as u8,
                        ctx: (i / n / 7) as u8,
                        part: Some(part.clone()),
                    })
                },
            ));
        }
        // all subsets of the 15 words of length <= 3
        let w3 = all_words(b"ab", 3);
        let n = 1u64 << w3.len();
        let (forms, ctxs, orders) = tier.pick((7u64, 6u64, 2u64), (7, 6, 4));
        let part2 = part.clone();
        fams.push(Fam::new(
            "subsets-3",
            &format!("every subset of the 15 words of length <= 3 over two letters, {forms} forms, {ctxs} contexts, {orders} orders"),
            n * forms * ctxs * orders,
            move |i| {
                let m = i % n;
                let r = i / n;
                let (f, c, o) = (r % forms, r / forms % ctxs, r / forms / ctxs);
                // quick: forms and contexts rotate with the subset unless it is small
                if tier == Tier::Quick && m.count_ones() > 4 && (m + f + c) % 11 != o {
                    return None;
                }
                let words: Vec<Vec<u8>> = (0..w3.len()).filter(|i| m >> i & 1 == 1).map(|i| w3[i].clone()).collect();
                if words.is_empty() && o > 1 {
                    return None;
                }
                Some(WCase { words: order(words, o), form: f as u8, ctx: c as u8, part: Some(part2.clone()) })
            },
        ));
        // small subsets of the 40 words of length <= 3 over three letters
        let w = all_words(b"abx", 3);
        let k = tier.pick(3usize, 4);
        let mut subs: Vec<Vec<usize>> = vec![];
        fn rec(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            if !cur.is_empty() {
                out.push(cur.clone());
            }
            if k == 0 {
                return;
            }
            for i in from..n {
                cur.push(i);
                rec(n, k - 1, i + 1, cur, out);
                cur.pop();
            }
        }
        rec(w.len(), k, 0, &mut vec![], &mut subs);
        let n = subs.len() as u64;
        let part3 = part.clone();
        fams.push(Fam::new(
            "subsets-abc",
            &format!("every set of at most {k} of the 40 words of length <= 3 over three letters"),
            n * 4,
            move |i| {
                let s = &subs[(i % n) as usize];
                let f = i / n;
                Some(WCase {
                    words: s.iter().map(|&j| w[j].clone()).collect(),
                    form: [0u8, 3, 4, 1][f as usize],
                    ctx: [0u8, 2, 3, 1][f as usize],
                    part: Some(part3.clone()),
                })
            },
        ));
        // large and deep lists
        let mut v = vec![];
        let ns: Vec<usize> = (1..=8)
            .chain([31, 32, 33, 62, 63, 64, 65, 98, 99, 100, 101, 102, 103, 104, 105, 127, 128, 129, 150, 201, 255, 256, 257])
            .chain(tier.pick(vec![], (106..=300).collect()))
            .collect();
        for n in ns {
            let chain: Vec<Vec<u8>> = (0..n).map(|i| vec![b'a'; i]).collect();
            let comb: Vec<Vec<u8>> = (0..n)
                .map(|i| {
                    let mut w = vec![b'a'; i];
                    w.push(b'b');
                    w
                })
                .collect();
            let zig: Vec<Vec<u8>> = (0..n).map(|i| (0..i).map(|k| if k % 2 == 0 { b'a' } else { b'b' }).collect()).collect();
            let mut deep2: Vec<Vec<u8>> = vec![];
            for i in 0..n {
                for t in [&b"a"[..], b"b", b"ab", b"ba"] {
                    let mut w = vec![b'x'; i];
                    w.extend(t);
                    deep2.push(w);
                }
            }
            let bin: Vec<Vec<u8>> =
                (0..n).map(|i| (0..9).map(|k| if i >> k & 1 == 1 { b'b' } else { b'a' }).collect()).collect();
            for words in [chain, comb, zig, deep2, bin] {
                for (f, c) in [(0u8, 0u8), (3, 0), (4, 0), (5, 0), (0, 2), (1, 1), (3, 3), (2, 4), (6, 2)] {
                    for o in [0, 1] {
                        v.push(WCase { words: order(words.clone(), o), form: f, ctx: c, part: Some(part.clone()) });
                    }
                }
            }
        }
        // words sharing bytes of multi-byte characters, and raw bytes
        let uni = ["\u{e9}", "\u{e8}", "e", "\u{20ac}", "\u{20ad}", "\u{1f600}", "\u{1f601}\u{1f600}", ""];
        for m in 0..1u32 << uni.len() {
            let words: Vec<Vec<u8>> =
                (0..uni.len()).filter(|i| m >> i & 1 == 1).map(|i| uni[i].as_bytes().to_vec()).collect();
            for f in [0u8, 2, 3, 4] {
                v.push(WCase { words: words.clone(), form: f, ctx: 0, part: None });
            }
        }
        let raw: [&[u8]; 7] = [b"\x00", b"\xff", b"\xff\x00", b"\x00\xff", b"\x80", b"\x80\x80", b"\xff\xff"];
        for m in 0..1u32 << raw.len() {
            let words: Vec<Vec<u8>> = (0..raw.len()).filter(|i| m >> i & 1 == 1).map(|i| raw[i].to_vec()).collect();
            for f in [0u8, 1, 4, 5] {
                v.push(WCase { words: words.clone(), form: f, ctx: 0, part: None });
            }
        }
        // many words below a node that is itself the end of a word, at several depths
        for n in tier.pick(vec![100usize, 127, 129, 255, 256, 257, 300, 511, 513, 600, 1025], vec![100, 101, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600, 1023, 1024, 1025, 2049]) {
            for depth in [1usize, 2, 5] {
                let pre = vec![b'x'; depth];
                let mut words: Vec<Vec<u8>> = vec![b"y".to_vec(), b"xa".to_vec(), pre.clone()];
                let mut w = pre.clone();
                *w.last_mut().unwrap() = b'y';
                words.push(w);
                for i in 0..n {
                    let mut w = pre.clone();
                    w.push(b'y');
                    w.extend((0..11).rev().map(|k| if i >> k & 1 == 1 { b'b' } else { b'a' }));
                    words.push(w);
                }
                let mut w = pre.clone();
                w.push(b'y');
                words.push(w);
                for (f, c) in [(0u8, 0u8), (3, 0), (4, 0), (5, 0), (0, 2)] {
                    for o in [0, 1] {
                        if n > 300 && (f == 4 || o == 1 && f != 0) {
                            continue;
                        }
                        v.push(WCase { words: order(words.clone(), o), form: f, ctx: c, part: Some(part.clone()) });
                    }
                }
            }
        }
        // every possible next byte below such a node, and one fewer
        for m in [255usize, 256] {
            for pre in [&b""[..], b"x", b"xy"] {
                let mut words: Vec<Vec<u8>> = vec![b"y".to_vec(), b"xa".to_vec(), pre.to_vec()];
                for b in 0..m {
                    let mut w = pre.to_vec();
                    w.push(b as u8);
                    words.push(w.clone());
                    if b % 2 == 0 {
                        w.push(b'a');
                        words.push(w);
                    }
                }
                for (f, c) in [(0u8, 0u8), (1, 0), (5, 0), (0, 2), (2, 4)] {
                    v.push(WCase { words: words.clone(), form: f, ctx: c, part: None });
                }
            }
        }
        fams.push(Fam::list("long-lists", "chains, combs and large lists around internal limits; multi-byte words", v));
        fams
    }
    fn text(&self, c: &WCase) -> String {
        let w: Vec<String> = c.words.iter().map(|w| hex(w) + ".").collect();
        format!("{} {} {}", c.form, c.ctx, w.join(" "))
    }
    fn parse(&self, s: &str) -> WCase {
        let v: Vec<&str> = s.split_whitespace().collect();
        WCase {
            form: v[0].parse().unwrap(),
            ctx: v[1].parse().unwrap(),
            words: v[2..].iter().map(|x| unhex(x.trim_end_matches('.'))).collect(),
            part: None,
        }
    }
    fn run(&self, c: &WCase, w: &mut Refs, st: &mut Stats) -> Result<(), String> {
        if c.words.is_empty() && (c.form == 3 || c.form == 6) {
            return Ok(()); // no pattern for the empty list
        }
        let t = c.reference();
        let mut rx = c.compile()?;
        let lc = LCase { term: t, part: c.part.clone() };
        with_ref(&lc, w, |d, p| {
            let x = explore(&mut rx, d, p, &Opts { bytes: Bytes::Reps1, mon: Mon { acc: true, dead: true, ..MON0 }, cap: 100_000 })?;
            x.record(st);
            st.outcome(&(&d.trans, &d.acc));
            Ok::<(), String>(())
        })?;
        // whole-string interface on the listed words themselves
        if c.ctx == 0 {
            for w in &c.words {
                if !rx.is_match_bytes(w) {
                    return Err(format!("listed word {} is rejected", show_bytes(w)));
                }
            }
        }
        Ok(())
    }
    fn rule(&self) -> String {
        "word lists enumerated exhaustively (subsets, orders, repeats) in seven construction forms and six contexts; \
         product of the matcher with the reference automaton explored to a fixpoint".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["reference automata as for C01".into()]
    }
}
