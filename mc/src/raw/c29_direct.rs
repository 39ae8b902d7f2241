//! The expression constructors called directly, over alphabets of many sizes (with the
//! construction-time optimisations on), against reference automata over that alphabet.

use derivre::raw::{DerivCache, ExprSet, NextByteCache, RelevanceCache};
use derivre::{ExprRef, NextByte};
use mc::explore::show_bytes;
use mc::families::*;
use mc::lang::*;
use mc::run::*;
use mc::term::*;
use std::collections::HashSet;

#[derive(Clone)]
pub struct DCase {
    pub k: usize,
    pub term: Term,
}
pub struct Direct;

/// letters a and b become the first and the last symbol of the alphabet
fn sym(b: u8, k: usize) -> u8 {
    match b {
        b'a' => 0,
        b'b' => (k - 1) as u8,
        x => (x as usize % k) as u8,
    }
}
fn place(t: &Term, k: usize) -> Term {
    let m = |v: &Vec<Term>| v.iter().map(|t| place(t, k)).collect::<Vec<_>>();
    match t {
        Term::Byte(b) => byte(sym(*b, k)),
        Term::Lit(v) => Term::Lit(v.iter().map(|b| sym(*b, k)).collect()),
        Term::Set(s) => {
            let mut r = [false; 256];
            for i in 0..k {
                // symbols other than the first and the last behave like any other byte
                let b = if i == 0 { b'a' } else if i == k - 1 { b'b' } else { 0xe0 };
                r[i] = s[b as usize];
            }
            Term::Set(Box::new(r))
        }
        Term::Cat(v) => Term::Cat(m(v)),
        Term::Or(v) => Term::Or(m(v)),
        Term::And(v) => Term::And(m(v)),
        Term::Not(t) => not(place(t, k)),
        Term::Pre(t) => pre(place(t, k)),
        Term::Rep(t, a, b) => rep(place(t, k), *a, *b),
        t => t.clone(),
    }
}
/// the same expression read over all bytes, with complements taken within the alphabet
fn confined(t: &Term, k: usize) -> Term {
    let m = |v: &Vec<Term>| v.iter().map(|t| confined(t, k)).collect::<Vec<_>>();
    match t {
        Term::Cat(v) => Term::Cat(m(v)),
        Term::Or(v) => Term::Or(m(v)),
        Term::And(v) => {
            let mut v = m(v);
            v.push(star(range(0, (k - 1) as u8)));
            Term::And(v)
        }
        Term::Not(t) => Term::And(vec![not(confined(t, k)), star(range(0, (k - 1) as u8))]),
        Term::Pre(t) => pre(confined(t, k)),
        Term::Rep(t, a, b) => rep(confined(t, k), *a, *b),
        t => t.clone(),
    }
}
fn words(s: &BSet, k: usize) -> Vec<u32> {
    let mut v = vec![0u32; k.div_ceil(32)];
    for i in 0..k {
        if s[i] {
            v[i / 32] |= 1 << (i % 32);
        }
    }
    v
}
fn mk(es: &mut ExprSet, t: &Term, k: usize) -> ExprRef {
    match t {
        Term::Byte(b) => es.mk_byte(*b),
        Term::Set(s) => es.mk_byte_set(&words(s, k)),
        Term::Lit(v) => es.mk_byte_literal(v),
        Term::Eps => ExprRef::EMPTY_STRING,
        Term::None => ExprRef::NO_MATCH,
        Term::Cat(v) => {
            let a = v.iter().map(|t| mk(es, t, k)).collect();
            es.mk_concat(a)
        }
        Term::Or(v) => {
            let a = v.iter().map(|t| mk(es, t, k)).collect();
            es.mk_or(a)
        }
        Term::And(v) => {
            let a = v.iter().map(|t| mk(es, t, k)).collect();
            es.mk_and(a)
        }
        Term::Not(t) => {
            let e = mk(es, t, k);
            es.mk_not(e)
        }
        Term::Pre(t) => {
            let e = mk(es, t, k);
            es.mk_prefixes(e)
        }
        Term::Rep(t, a, b) => {
            let e = mk(es, t, k);
            es.mk_repeat(e, *a, *b)
        }
        t => panic!("{t:?} is not used here"),
    }
}

fn check(k: usize, term: &Term, w: &mut Refs, st: &mut Stats) -> Result<(), String> {
    let t = place(term, k);
    let mut sets = vec![];
    t.sets(&mut sets);
    sets.push(bset(|b| (b as usize) < k));
    let p = Part::from_sets(&sets);
    let l = w.langs(&p);
    // an intersection of nothing is everything: state the root within the alphabet as well
    let id = Term::And(vec![confined(&t, k), star(range(0, (k - 1) as u8))]).lang(l, &p);
    let d = l.get(id).clone();
    let mut es = ExprSet::new(k);
    let e = mk(&mut es, &t, k);
    if mk(&mut es, &t, k) != e {
        return Err("building again gives another expression".into());
    }
    let syms: Vec<u8> = {
        let mut v: Vec<u8> = p.reps().into_iter().filter(|&b| (b as usize) < k).collect();
        v.sort_unstable();
        v.dedup();
        v
    };
    let (mut dc, mut nb, mut rc) = (DerivCache::new(), NextByteCache::new(), RelevanceCache::new());
    let mut nodes: Vec<(ExprRef, u32, usize, u8)> = vec![(e, 0, usize::MAX, 0)];
    let mut seen: HashSet<(ExprRef, u32)> = HashSet::from([(e, 0)]);
    let mut i = 0;
    while i < nodes.len() {
        let (e, q, _, _) = nodes[i];
        let ctx = |m: String| {
            let mut v = vec![];
            let mut j = i;
            while nodes[j].2 != usize::MAX {
                v.push(nodes[j].3);
                j = nodes[j].2;
            }
            v.reverse();
            format!("after symbols {}: {m}", show_bytes(&v))
        };
        let (acc, live) = (d.acc[q as usize], d.live[q as usize]);
        if !es.is_valid(e) {
            return Err(ctx("an invalid reference".into()));
        }
        if es.is_nullable(e) != acc {
            return Err(ctx(format!("is_nullable = {}, expected {acc}", es.is_nullable(e))));
        }
        if es.is_positive(e) && !live {
            return Err(ctx("flagged as certainly non-empty, but nothing matches".into()));
        }
        let r = rc.is_non_empty(&mut es, e);
        if r != live {
            return Err(ctx(format!("is_non_empty = {r}, expected {live}")));
        }
        let can = |s: u8| d.live[d.step(q, p.class_of[s as usize] as usize) as usize];
        let hint = nb.next_byte(&es, e);
        let ok = match hint {
            NextByte::ForcedByte(x) => !acc && (0..k).all(|s| s == x as usize || !can(s as u8)),
            NextByte::ForcedEOI => (acc || !live) && (0..k).all(|s| !can(s as u8)),
            NextByte::Dead => !live,
            NextByte::SomeBytes => true,
        };
        if !ok {
            return Err(ctx(format!("next symbol {hint:?} is wrong")));
        }
        if i == 0 {
            for &s in &syms {
                for w in [vec![s], vec![s, syms[0]], vec![s, syms[syms.len() - 1]], vec![s, s, s]] {
                    if es.has_simply_forced_bytes(e, &w) {
                        let mut q = 0u32;
                        for &x in &w {
                            if d.acc[q as usize] || (0..k).any(|o| o != x as usize && d.live[d.step(q, p.class_of[o] as usize) as usize]) {
                                return Err(ctx(format!("symbols {w:?} reported as forced")));
                            }
                            q = d.step(q, p.class_of[x as usize] as usize);
                        }
                    }
                }
            }
        }
        for &s in &syms {
            let x = dc.derivative(&mut es, e, s);
            let qt = d.step(q, p.class_of[s as usize] as usize);
            st.transitions += 1;
            if seen.insert((x, qt)) {
                if nodes.len() >= 20_000 {
                    return Err(format!("more than 20000 derivatives (the reference has {} states)", d.n()));
                }
                nodes.push((x, qt, i, s));
            }
        }
        i += 1;
    }
    st.states += nodes.len() as u64;
    st.outcome(&(k.min(3), &d.trans, &d.acc));
    Ok(())
}

impl Check for Direct {
    type Case = DCase;
    type Scratch = Refs;
    fn id(&self) -> &'static str {
        "C29"
    }
    fn scratch(&self) -> Refs {
        Refs::new()
    }
    fn families(&self, tier: Tier) -> Vec<Fam<DCase>> {
        let mut v = vec![];
        let sizes = [1usize, 2, 3, 5, 31, 32, 33, 64, 65, 128, 255, 256];
        for f in term_families(4, 4) {
            let get = f.get;
            let n = sizes.len() as u64;
            v.push(Fam::new(&f.name, &format!("{}, twelve alphabet sizes from 1 to 256", f.note), f.count * n, move |i| {
                get(i / n).map(|c| DCase { k: sizes[(i % n) as usize], term: c.term })
            }));
        }
        for f in term_families(5, tier.pick(6, 7)).into_iter().skip(4) {
            let get = f.get;
            let ks = [2usize, 3];
            v.push(Fam::new(&f.name, &format!("{}, alphabet sizes 2 and 3 in turn", f.note), f.count, move |i| {
                get(i).map(|c| DCase { k: ks[(i % 2) as usize], term: c.term })
            }));
        }
        let f = shared_heads(Tier::Quick);
        let get = f.get;
        v.push(Fam::new(&f.name, &format!("{}, alphabet sizes 2, 3, 33", f.note), f.count, move |i| {
            get(i).map(|c| DCase { k: [2, 3, 33][(i % 3) as usize], term: c.term })
        }));
        let f = wide_lists(tier);
        let get = f.get;
        v.push(Fam::new(&f.name, &format!("{}, alphabet sizes 2, 3, 33", f.note), f.count, move |i| {
            let c = get(i)?;
            // the number of different derivatives (not of states) of these grows too fast
            let b = rep(byte(b'b'), 0, 1);
            if matches!(&c.term, Term::Cat(v) if v.len() > 34 && v.iter().filter(|t| **t == b).count() > 1) {
                return None;
            }
            Some(DCase { k: [2, 3, 33][(i % 3) as usize], term: c.term })
        }));
        // every alphabet size
        let l = [
            not(byte(b'a')),
            Term::Cat(vec![any(), not(byte(b'b'))]),
            Term::And(vec![not(byte(b'a')), star(set(|b| b != b'b'))]),
            Term::Or(vec![byte(b'a'), set(|b| b != b'a')]),
            Term::Or(vec![byte(b'b'), set(|b| b != b'a' && b != b'b')]),
            not(Term::Or(vec![set(|b| b != b'a'), Term::Eps, byte(b'a'), rep(any(), 2, INF)])),
            pre(Term::Cat(vec![set(|b| b == b'b'), any(), byte(b'a')])),
            Term::And(vec![not(Term::Cat(vec![any(), star(any())])), rep(not(byte(b'b')), 1, 3)]),
            Term::Cat(vec![not(any()), any(), not(Term::None)]),
        ];
        let n = l.len() as u64;
        v.push(Fam::new("sizes", "nine expressions over every alphabet size from 1 to 256", n * 256, move |i| {
            Some(DCase { k: (i / n + 1) as usize, term: l[(i % n) as usize].clone() })
        }));
        // argument lists: empty, single, repeated, in every order
        let pool = vec![byte(b'a'), byte(b'b'), any(), Term::Eps, Term::None, star(any()), not(byte(b'a')), Term::Lit(b"ab".to_vec()), rep(any(), 1, INF), Term::Cat(vec![byte(b'a'), star(byte(b'b'))])];
        let n = pool.len() as u64;
        for len in 0..=tier.pick(3u32, 4) {
            let pool = pool.clone();
            let per = n.pow(len);
            v.push(Fam::new(&format!("lists-{len}"), &format!("the three n-ary constructors on every list of {len} out of {n}"), per * 3 * 4, move |i| {
                let k = [1, 2, 3, 33][(i % 4) as usize];
                let op = BINS[(i / 4 % 3) as usize];
                let mut r = i / 12;
                let mut v = vec![];
                for _ in 0..len {
                    v.push(pool[(r % n) as usize].clone());
                    r /= n;
                }
                let _ = per;
                Some(DCase { k, term: bin(op, v) })
            }));
        }
        v
    }
    fn text(&self, c: &DCase) -> String {
        format!("{} {}", c.k, c.term.text())
    }
    fn parse(&self, s: &str) -> DCase {
        let (k, t) = s.split_once(' ').unwrap();
        DCase { k: k.parse().unwrap(), term: Term::parse(t) }
    }
    fn run(&self, c: &DCase, w: &mut Refs, st: &mut Stats) -> Result<(), String> {
        check(c.k, &c.term, w, st)
    }
    fn rule(&self) -> String {
        "each expression is built with the constructors of the expression set itself over an alphabet of each listed size; its \
         derivative graph is closed together with a reference automaton confined to that alphabet, comparing nullability, \
         emptiness, the non-empty flag, next-symbol answers and forced prefixes in every node"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["reference automata as for C01; smallest, middle and largest symbol of each class are stepped".into()]
    }
}
