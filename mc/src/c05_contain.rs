//! Containment queries and fuel.

use crate::explore::*;
use crate::families::*;
use crate::lang::*;
use crate::run::*;
use crate::term::*;
use derivre::{RegexAst, RegexBuilder};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// fresh builder per pair, unlimited fuel
    Fresh,
    /// one builder for the whole row
    Shared,
    /// every fuel value from 0 until the answer is stable
    Fuel,
    /// string interface
    Strings,
    /// the others inside the first, one builder for all
    Inside,
    /// a question that needs a lot of fuel, asked without a limit through every entry point
    Hard,
}

#[derive(Clone)]
pub struct CCase {
    pub mode: Mode,
    pub a: Term,
    pub bs: Arc<Vec<Term>>,
    pub part: Option<Arc<Part>>,
}

pub struct Contain;

fn pattern_pool() -> Vec<Term> {
    // (pattern, meaning)
    let a = || byte(b'a');
    let b = || byte(b'b');
    let o = |v: Vec<Term>| Term::Or(v);
    let c = |v: Vec<Term>| Term::Cat(v);
    let lit = |s: &str| Term::Lit(s.as_bytes().to_vec());
    let ab = || range(b'a', b'b');
    let dot = || Term::Uni(vec![(0, 9), (11, 0x10FFFF)]);
    let v: Vec<(&str, Term)> = vec![
        ("", Term::Eps),
        ("a", a()),
        ("b", b()),
        ("ab", lit("ab")),
        ("a*", star(a())),
        ("a+", rep(a(), 1, INF)),
        ("a?", rep(a(), 0, 1)),
        ("a|b", o(vec![a(), b()])),
        ("[ab]", ab()),
        ("[ab]*", star(ab())),
        ("(ab)*", star(lit("ab"))),
        ("(a|b)*", star(ab())),
        ("(a|ab)*", star(o(vec![a(), lit("ab")]))),
        ("a{2}", rep(a(), 2, 2)),
        ("a{2,4}", rep(a(), 2, 4)),
        ("a{0,100}", rep(a(), 0, 100)),
        ("a{1,101}", rep(a(), 1, 101)),
        ("(aa)*", star(lit("aa"))),
        ("(aaa)*", star(lit("aaa"))),
        ("(aaaaaa)*", star(lit("aaaaaa"))),
        ("a(aa)*", c(vec![a(), star(lit("aa"))])),
        ("[ab]{3}", rep(ab(), 3, 3)),
        ("[ab]{0,3}", rep(ab(), 0, 3)),
        ("[ab]*a", c(vec![star(ab()), a()])),
        ("[ab]*a[ab]", c(vec![star(ab()), a(), ab()])),
        ("[ab]*a[ab]{4}", c(vec![star(ab()), a(), rep(ab(), 4, 4)])),
        ("a[ab]*b", c(vec![a(), star(ab()), b()])),
        ("(a[ab]*b)+", rep(c(vec![a(), star(ab()), b()]), 1, INF)),
        ("(?s:.)*", star(Term::Uni(vec![(0, 0x10FFFF)]))),
        (".*", star(dot())),
        (".", dot()),
        (".*a.*", c(vec![star(dot()), a(), star(dot())])),
        ("[^a]*", star(Term::Uni(vec![(0, 0x60), (0x62, 0x10FFFF)]))),
        ("(aa|aaa|b)*", star(o(vec![lit("aa"), lit("aaa"), b()]))),
        ("(b|aa)*(a|)", c(vec![star(o(vec![b(), lit("aa")])), rep(a(), 0, 1)])),
        ("foo|far|bar|baz", o(vec![lit("foo"), lit("far"), lit("bar"), lit("baz")])),
        ("(foo|ba[rz]|far)", o(vec![lit("foo"), lit("far"), lit("bar"), lit("baz")])),
        ("[a-z]+", rep(range(b'a', b'z'), 1, INF)),
        ("[a-z]{3}", rep(range(b'a', b'z'), 3, 3)),
        ("\u{e9}+", rep(Term::Uni(vec![(0xe9, 0xe9)]), 1, INF)),
        ("[\u{e0}-\u{ff}]*", star(Term::Uni(vec![(0xe0, 0xff)]))),
    ];
    v.into_iter().map(|(s, t)| Term::Rx(s.to_string(), Box::new(t))).collect()
}

/// Languages over one letter given by residues: the shortest counterexample can lie as deep as the product of the periods.
fn residues(max: u32) -> Vec<Term> {
    let an = |n: u32| Term::Lit(vec![b'a'; n as usize]);
    let mut v = vec![];
    for n in 1..=max {
        v.push(star(an(n)));
        v.push(rep(an(n), 1, INF));
        for r in 1..n {
            v.push(Term::Cat(vec![an(r), star(an(n))]));
        }
        v.push(not(star(an(n))));
        v.push(rep(byte(b'a'), n, INF));
        v.push(rep(byte(b'a'), 0, n));
        for m in 2..n {
            v.push(Term::And(vec![star(an(n)), star(an(m))]));
            v.push(Term::Or(vec![star(an(n)), Term::Cat(vec![an(1), star(an(m))])]));
            v.push(Term::Cat(vec![star(an(n)), star(an(m))]));
        }
    }
    v
}

/// Several periods at once: common multiples far from the start.
fn chains(tier: Tier) -> Vec<Term> {
    let an = |n: u32| Term::Lit(vec![b'a'; n as usize]);
    let mut v = vec![Term::Eps, Term::None, star(byte(b'a')), rep(byte(b'a'), 1, INF)];
    let lists: &[&[u32]] = &[&[2, 3], &[3, 5], &[2, 3, 5], &[4, 6, 9], &[3, 4, 5], &[2, 3, 5, 7], &[5, 7, 9], &[8, 9, 11], &[2, 3, 5, 7, 11]];
    let lists = if tier == Tier::Quick { &lists[..6] } else { lists };
    for l in lists {
        let all: Vec<Term> = l.iter().map(|n| star(an(*n))).collect();
        v.push(Term::And(all.clone()));
        v.push(Term::Or(all.clone()));
        v.push(Term::And(all.into_iter().chain([rep(byte(b'a'), 1, INF)]).collect()));
        v.push(star(an(l.iter().fold(1, |a, b| a * b))));
    }
    v
}

/// Counted repetitions on both sides of each other.
fn counts(tier: Tier) -> Vec<Term> {
    let ns: &[u32] = tier.pick(&[0u32, 1, 2, 3, 9, 10, 11, 31, 32, 33, 127, 128, 129][..], &[0u32, 1, 2, 3, 9, 10, 11, 31, 32, 33, 127, 128, 129, 255, 256, 257, 511, 512, 513][..]);
    let mut v = vec![];
    for (i, &lo) in ns.iter().enumerate() {
        for &hi in ns[i..].iter().chain([&INF]) {
            v.push(rep(byte(b'a'), lo, hi));
            if hi != INF && hi <= 33 {
                v.push(rep(Term::Lit(b"aa".to_vec()), lo, hi));
                v.push(rep(rep(byte(b'a'), 0, 1), lo, hi));
            }
        }
    }
    v
}

/// Unions of many alternatives whose first-byte classes overlap in various ways, each with its own
/// tail, and single words against them.
fn overlaps(tier: Tier) -> Vec<(Term, Vec<Term>)> {
    let tail = |i: usize| vec![b'A' + (i / 16) as u8, b'a' + (i % 16) as u8];
    let mut out = vec![];
    for n in tier.pick(&[3usize, 20, 70, 150][..], &[3usize, 10, 20, 40, 70, 100, 150, 250][..]) {
        let n = *n;
        let mut kinds: Vec<Vec<Vec<u8>>> = vec![];
        let win = |i: usize, w: usize| (i..(i + w).min(n)).map(|x| x as u8).collect::<Vec<_>>();
        // sliding windows, one after the other and every other one first
        for w in [2, 3] {
            kinds.push((0..n).map(|i| win(i, w)).collect());
            let mut v: Vec<Vec<u8>> = vec![];
            for off in 0..w {
                v.extend((0..n).skip(off).step_by(w).map(|i| win(i, w)));
            }
            kinds.push(v.clone());
            v.reverse();
            kinds.push(v);
        }
        // nested
        kinds.push((0..n / 2).map(|i| (i as u8..(n - i) as u8).collect()).collect());
        kinds.push((0..n / 2).rev().map(|i| (i as u8..(n - i) as u8).collect()).collect());
        // by the bits of the byte, then all single ones
        let mut v: Vec<Vec<u8>> = (0..8).map(|k| (0..n as u32).filter(|b| b >> k & 1 != 0).map(|b| b as u8).collect()).collect();
        v.extend((0..n).map(|i| vec![i as u8]));
        v.retain(|x| !x.is_empty());
        kinds.push(v.clone());
        v.reverse();
        kinds.push(v);
        // all but one, for every one
        kinds.push((0..n).map(|i| (0..n).filter(|&j| j != i).map(|j| j as u8).collect()).collect());
        for classes in kinds {
            let alts = classes.iter().enumerate().map(|(i, c)| Term::Cat(vec![set(|b| c.contains(&b)), Term::Lit(tail(i))])).collect();
            let mut words = vec![];
            for k in 0..=n {
                // a tail the byte has, and the tails around it
                let mut t: Vec<usize> = vec![k % classes.len()];
                let inside: Vec<usize> = (0..classes.len()).filter(|&i| classes[i].contains(&(k as u8))).collect();
                t.extend(inside.iter().take(2));
                t.extend(inside.iter().rev().take(2));
                if let (Some(a), Some(b)) = (inside.first(), inside.last()) {
                    t.extend([a.saturating_sub(1), (b + 1).min(classes.len() - 1)]);
                }
                t.sort_unstable();
                t.dedup();
                for i in t {
                    let mut w = vec![k as u8];
                    w.extend(tail(i));
                    words.push(Term::Lit(w));
                }
            }
            out.push((Term::Or(alts), words));
        }
    }
    out
}

impl Contain {
    fn pool(tier: Tier) -> Vec<Term> {
        match tier {
            Tier::Quick => Pool::new(leaves_core(), uns_core(), BINS.to_vec(), 3).all(),
            Tier::Thorough => Pool::new(leaves_full(), uns_full(), BINS.to_vec(), 3).all(),
        }
    }
}

fn union_part(c: &CCase) -> Part {
    let mut v = vec![];
    c.a.sets(&mut v);
    for t in c.bs.iter() {
        t.sets(&mut v);
    }
    v.sort_unstable();
    v.dedup();
    Part::from_sets(&v)
}

impl Check for Contain {
    type Case = CCase;
    type Scratch = Refs;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn scratch(&self) -> Refs {
        Refs::new()
    }
    fn case_timeout(&self) -> u64 {
        300
    }
    fn families(&self, tier: Tier) -> Vec<Fam<CCase>> {
        let part = Arc::new(ab_part());
        let pool = Arc::new(Self::pool(tier));
        let small = Arc::new(Pool::new(leaves_full(), uns_full(), BINS.to_vec(), 2).all());
        let mid = Arc::new({
            let mut v = vec![];
            let p = Pool::new(leaves_core(), uns_core(), BINS.to_vec(), 3).all();
            for (i, t) in p.into_iter().enumerate() {
                if tier == Tier::Thorough || i % 3 == 0 {
                    v.push(t);
                }
            }
            v.extend([
                Term::Cat(vec![star(range(b'a', b'b')), byte(b'a'), rep(range(b'a', b'b'), 3, 3)]),
                star(Term::Or(vec![Term::Lit(b"aa".to_vec()), Term::Lit(b"bab".to_vec())])),
                rep(byte(b'a'), 0, 20),
                rep(Term::Lit(b"aa".to_vec()), 3, INF),
                Term::And(vec![star(Term::Lit(b"aa".to_vec())), star(Term::Lit(b"aaa".to_vec()))]),
            ]);
            v
        });
        let pats = Arc::new(pattern_pool());
        let res = Arc::new(residues(tier.pick(8, 12)));
        let chains = Arc::new(chains(tier));
        let counts = Arc::new(counts(tier));
        let row = |name: &str, mode: Mode, a: Arc<Vec<Term>>, b: Arc<Vec<Term>>, part: Option<Arc<Part>>| {
            let note = format!("{} x {} pairs, {:?}", a.len(), b.len(), mode);
            Fam::new(name, &note, a.len() as u64, move |i| {
                Some(CCase { mode, a: a[i as usize].clone(), bs: b.clone(), part: part.clone() })
            })
        };
        // single pairs for the fuel sweep (each sweep is many compilations)
        let fuel = |name: &str, a: Arc<Vec<Term>>, part: Option<Arc<Part>>| {
            let n = a.len() as u64;
            Fam::new(name, &format!("all {n} x {n} pairs, every fuel value up to stability"), n * n, move |i| {
                Some(CCase {
                    mode: Mode::Fuel,
                    a: a[(i / n) as usize].clone(),
                    bs: Arc::new(vec![a[(i % n) as usize].clone()]),
                    part: part.clone(),
                })
            })
        };
        vec![
            row("pairs-fresh", Mode::Fresh, pool.clone(), pool.clone(), Some(part.clone())),
            row("pairs-shared", Mode::Shared, pool.clone(), pool.clone(), Some(part.clone())),
            fuel("fuel-small", small, Some(part.clone())),
            fuel("fuel-mid", mid, Some(part.clone())),
            row("patterns", Mode::Strings, pats.clone(), pats.clone(), None),
            row("patterns-shared", Mode::Shared, pats.clone(), pats.clone(), None),
            fuel("fuel-patterns", pats, None),
            row("residues", Mode::Fresh, res.clone(), res.clone(), None),
            row("common-multiples", Mode::Fresh, chains.clone(), chains.clone(), None),
            row("counts", Mode::Fresh, counts.clone(), counts.clone(), None),
            row("counts-shared", Mode::Shared, counts.clone(), counts, None),
            {
                let mut cases = vec![];
                for (big, words) in overlaps(tier) {
                    let mut v = vec![];
                    big.sets(&mut v);
                    v.extend((0..=255u8).map(|k| bset(|b| b == k)));
                    let part = Arc::new(Part::from_sets(&v));
                    for w in words.chunks(50) {
                        cases.push((big.clone(), Arc::new(w.to_vec()), part.clone()));
                    }
                }
                let note = format!("{} groups of 50 words against unions of up to hundreds of alternatives with overlapping first classes", cases.len());
                let n = cases.len() as u64;
                Fam::new("overlapping-classes", &note, n, move |i| {
                    let (a, bs, part) = cases[i as usize].clone();
                    Some(CCase { mode: Mode::Inside, a, bs, part: Some(part) })
                })
            },
            {
                // words with an a at a given distance from the end, with a longer and with another tail
                let q = |n: u32, tail: Vec<Term>| {
                    let mut v = vec![star(range(b'a', b'b')), byte(b'a'), rep(range(b'a', b'b'), n, n)];
                    v.extend(tail);
                    Term::Cat(v)
                };
                let mut cases = vec![];
                for n in tier.pick(&[6u32, 8, 10, 12, 14, 16][..], &[6u32, 8, 10, 12, 13, 14, 15, 16, 17][..]) {
                    let n = *n;
                    let lit = |s: &str| Term::Lit(s.as_bytes().to_vec());
                    cases.push((q(n, vec![byte(b'b')]), vec![q(n, vec![Term::Or(vec![byte(b'b'), lit("ca")])])]));
                    if n <= 14 {
                        cases.push((q(n, vec![Term::Or(vec![byte(b'b'), lit("ca")])]), vec![q(n, vec![Term::Or(vec![byte(b'b'), lit("cb")])])]));
                        cases.push((q(n, vec![byte(b'b')]), vec![q(n + 1, vec![]), star(range(b'a', b'b'))]));
                    }
                }
                let note = format!("{} questions that cost up to some 50 million units of fuel, asked without a limit", cases.len());
                let n = cases.len() as u64;
                Fam::new("hard", &note, n, move |i| {
                    let (a, bs) = cases[i as usize].clone();
                    Some(CCase { mode: Mode::Hard, a, bs: Arc::new(bs), part: None })
                })
            },
            {
                // the shortest counterexample, if there is one, is n bytes long, and every byte before it is forced
                let mut cases = vec![];
                let lit = |s: &str| Term::Lit(s.as_bytes().to_vec());
                for n in tier.pick(&[100u32, 255, 257, 513, 999, 1025, 2049][..], &[100u32, 255, 256, 257, 511, 513, 999, 1000, 1001, 1023, 1025, 2047, 2049, 4097][..]) {
                    let n = *n;
                    let a = || byte(b'a');
                    let long = Term::Cat(vec![rep(a(), n, n), byte(b'b')]);
                    let any_then_b = Term::Cat(vec![star(a()), byte(b'b')]);
                    let but_one = Term::Or(vec![Term::Cat(vec![rep(a(), 0, n - 1), byte(b'b')]), Term::Cat(vec![rep(a(), n + 1, INF), byte(b'b')])]);
                    cases.push((any_then_b.clone(), vec![but_one.clone()]));
                    cases.push((long.clone(), vec![but_one.clone(), any_then_b.clone(), Term::Cat(vec![star(a()), byte(b'c')]), Term::Cat(vec![rep(a(), 0, n), byte(b'b')])]));
                    cases.push((Term::Cat(vec![rep(a(), 0, n), byte(b'b')]), vec![but_one, rep(range(b'a', b'b'), 0, n), rep(range(b'a', b'b'), 0, n + 1)]));
                    // a long literal word, forced byte by byte, and its near misses
                    let word: Vec<u8> = (0..n).map(|i| if (i * i / 7) % 3 == 0 { b'a' } else { b'b' }).collect();
                    let mut last = word.clone();
                    *last.last_mut().unwrap() = b'c';
                    let mut mid = word.clone();
                    mid[n as usize / 2] = b'c';
                    cases.push((Term::Lit(word.clone()), vec![
                        Term::Lit(last.clone()),
                        Term::Lit(mid.clone()),
                        Term::Or(vec![Term::Lit(last.clone()), Term::Lit(mid.clone())]),
                        Term::Or(vec![Term::Lit(last), Term::Lit(mid), Term::Lit(word.clone())]),
                        Term::Cat(vec![star(range(b'a', b'b')), byte(*word.last().unwrap())]),
                        not(Term::Lit(word.clone())),
                    ]));
                    cases.push((star(lit("ab")), vec![Term::Or(vec![rep(lit("ab"), 0, n - 1), rep(lit("ab"), n + 1, INF)])]));
                }
                let note = format!("{} questions whose shortest counterexample is up to some thousand bytes long", cases.iter().map(|c| c.1.len()).sum::<usize>());
                let n = cases.len() as u64;
                Fam::new("deep", &note, n, move |i| {
                    let (a, bs) = cases[i as usize].clone();
                    Some(CCase { mode: Mode::Hard, a, bs: Arc::new(bs), part: None })
                })
            },
            fuel("fuel-multiples", Arc::new(chains.iter().take(20).cloned().collect()), None),
        ]
    }
    fn text(&self, c: &CCase) -> String {
        let v: Vec<String> = c.bs.iter().map(|t| t.text()).collect();
        format!("{:?} ; {} ; {}", c.mode, c.a.text(), v.join(" ; "))
    }
    fn parse(&self, s: &str) -> CCase {
        let v: Vec<&str> = s.split(" ; ").collect();
        let mode = match v[0] {
            "Fresh" => Mode::Fresh,
            "Shared" => Mode::Shared,
            "Fuel" => Mode::Fuel,
            "Inside" => Mode::Inside,
            "Hard" => Mode::Hard,
            _ => Mode::Strings,
        };
        CCase {
            mode,
            a: Term::parse(v[1]),
            bs: Arc::new(v[2..].iter().map(|t| Term::parse(t)).collect()),
            part: None,
        }
    }
    fn run(&self, c: &CCase, w: &mut Refs, st: &mut Stats) -> Result<(), String> {
        let own;
        let p = match &c.part {
            Some(p) => &**p,
            None => {
                own = union_part(c);
                &own
            }
        };
        let l = w.langs(p);
        let ia = c.a.lang(l, p);
        let da = l.get(ia).clone();
        let asta = c.a.to_ast();
        let mut shared = RegexBuilder::new();
        for b in c.bs.iter() {
            let ib = b.lang(l, p);
            let db = l.get(ib).clone();
            let exp = if c.mode == Mode::Inside { db.subset_of(&da) } else { da.subset_of(&db) };
            let astb = b.to_ast();
            st.states += 1;
            let bad = |what: &str, got: bool, exp: bool| {
                Err(format!("{what}: contained = {got}, expected {exp}; small {} big {}", c.a.text(), b.text()))
            };
            let mut ans = vec![];
            match c.mode {
                Mode::Fresh => {
                    let mut bld = RegexBuilder::new();
                    let e = bld.mk_contained_in_ast(&asta, &astb).map_err(|e| e.to_string())?;
                    let mut rx = bld.to_regex(e);
                    ans.push(("mk_contained_in_ast", rx.always_empty()));
                    // the combined expression is itself an exact expression: small minus big
                    let nb = l.not(ib);
                    let diff = l.and(&[ia, nb]);
                    let dd = l.get(diff).clone();
                    let x = explore(&mut rx, &dd, p, &Opts { bytes: Bytes::Reps1, mon: Mon { acc: true, dead: true, ..MON0 }, cap: 20_000 })?;
                    st.transitions += x.transitions;
                }
                Mode::Shared => {
                    let e = shared.mk_contained_in_ast(&asta, &astb).map_err(|e| e.to_string())?;
                    let mut rx = shared.to_regex(e);
                    ans.push(("shared builder", rx.always_empty()));
                    let e = shared
                        .mk(&asta.contained_in(&astb))
                        .map_err(|e| e.to_string())?;
                    let mut rx = shared.to_regex_limited(e, u64::MAX).map_err(|e| format!("unlimited fuel: {e}"))?;
                    ans.push(("contained_in", rx.always_empty()));
                    st.transitions += 2;
                }
                Mode::Inside => {
                    let e = shared.mk_contained_in_ast(&astb, &asta).map_err(|e| e.to_string())?;
                    ans.push(("the second inside the first", shared.to_regex(e).always_empty()));
                    st.transitions += 1;
                }
                Mode::Hard => {
                    let mut bld = RegexBuilder::new();
                    let e = bld.mk_contained_in_ast(&asta, &astb).map_err(|e| e.to_string())?;
                    let mut rx = bld.to_regex_limited(e, u64::MAX).map_err(|e| format!("unlimited fuel gives an error: {e}"))?;
                    ans.push(("without a limit", rx.always_empty()));
                    st.transitions += 1;
                    let large = matches!(&c.a, Term::Cat(v) if v.len() > 2 && matches!(v[2], Term::Rep(_, n, _) if n >= 16));
                    if !large {
                        ans.push(("to_regex", bld.to_regex(e).always_empty()));
                        // a limit far beyond the cost is no limit
                        let mut rx = bld.to_regex_limited(e, 1 << 40).map_err(|e| format!("fuel 2^40 gives an error: {e}"))?;
                        ans.push(("fuel 2^40", rx.always_empty()));
                        st.transitions += 2;
                    }
                }
                Mode::Strings => {
                    if let (RegexAst::Regex(sa), RegexAst::Regex(sb)) = (&asta, &astb) {
                        let mut bld = RegexBuilder::new();
                        let r = bld
                            .is_contained_in(sa, sb, u64::MAX)
                            .map_err(|e| format!("unlimited fuel gives an error: {e}"))?;
                        ans.push(("is_contained_in", r));
                        let r = shared
                            .is_contained_in(sa, sb, u64::MAX)
                            .map_err(|e| format!("unlimited fuel gives an error: {e}"))?;
                        ans.push(("is_contained_in, shared builder", r));
                        let e = shared.mk_contained_in(sa, sb).map_err(|e| e.to_string())?;
                        ans.push(("mk_contained_in", shared.to_regex(e).always_empty()));
                        for fuel in [0u64, 1, 5, 20, 100, 1000, 10_000] {
                            if let Ok(r) = RegexBuilder::new().is_contained_in(sa, sb, fuel) {
                                ans.push(("is_contained_in, limited", r));
                            }
                        }
                        st.transitions += 3;
                    }
                }
                Mode::Fuel => {
                    let mut bld = RegexBuilder::new();
                    let e = bld.mk_contained_in_ast(&asta, &astb).map_err(|e| e.to_string())?;
                    let mut first_ok: Option<u64> = None;
                    let mut fuel = 0u64;
                    let mut errs = 0;
                    let try_one = |fuel: u64, first_ok: &mut Option<u64>, errs: &mut u64| -> Result<(), String> {
                        match bld.to_regex_limited(e, fuel) {
                            Ok(mut rx) => {
                                if rx.always_empty() != exp {
                                    return bad(&format!("fuel {fuel}"), rx.always_empty(), exp);
                                }
                                if first_ok.is_none() {
                                    *first_ok = Some(fuel);
                                }
                            }
                            Err(_) => {
                                if let Some(f) = first_ok {
                                    return Err(format!(
                                        "fuel {f} suffices but fuel {fuel} gives an error; small {} big {}",
                                        c.a.text(),
                                        b.text()
                                    ));
                                }
                                *errs += 1;
                            }
                        }
                        Ok(())
                    };
                    loop {
                        try_one(fuel, &mut first_ok, &mut errs)?;
                        st.transitions += 1;
                        match first_ok {
                            Some(f) if fuel > f + 24 => break,
                            _ => {}
                        }
                        // one by one at first, then in growing steps (still increasing)
                        fuel += if fuel < 400 || first_ok.is_some() { 1 } else { fuel / 20 };
                        if fuel > 50_000_000 {
                            return Err("no answer with fuel 50 million".into());
                        }
                    }
                    for f in [1_000u64, 10_000, 1 << 20, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 33, 1 << 62, u64::MAX - 1, u64::MAX] {
                        if f > first_ok.unwrap() {
                            try_one(f, &mut first_ok, &mut errs)?;
                        }
                    }
                    if bld.to_regex_limited(e, u64::MAX).is_err() {
                        return Err("unlimited fuel gives an error".into());
                    }
                    st.add("fuel_errors_seen", errs);
                    st.outcome(&(exp, first_ok));
                }
            }
            for (what, got) in ans {
                if got != exp {
                    return bad(what, got, exp);
                }
            }
            st.add(if exp { "contained" } else { "not_contained" }, 1);
        }
        Ok(())
    }
    fn rule(&self) -> String {
        "all pairs over pools of small expressions and over a list of patterns; the real containment answer is compared \
         with inclusion of reference automata; for fuel, every limit from 0 to past the first success (geometric steps \
         above 400) plus the extreme values; states = pairs, transitions = queries / product transitions".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["reference automata as for C01".into()]
    }
}
