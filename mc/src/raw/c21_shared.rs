//! Low-level engine pieces shared between several expressions compiled over one alphabet.

use derivre::raw::{DerivCache, ExprSet, NextByteCache, RelevanceCache};
use derivre::{AlphabetInfo, ExprRef, NextByte, RegexBuilder};
use mc::explore::show_bytes;
use mc::families::*;
use mc::lang::*;
use mc::run::*;
use mc::term::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::sync::Arc;

#[derive(Clone)]
pub struct ShCase {
    pub terms: Vec<Term>,
    pub mode: u8,
    pub part: Option<Arc<Part>>,
}
const MODES: u64 = 7;

pub struct SharedPieces;

#[derive(Clone)]
struct Eng {
    es: ExprSet,
    dc: DerivCache,
    nb: NextByteCache,
    rc: RelevanceCache,
}

struct Node {
    i: usize,
    e: ExprRef,
    q: u32,
    path: Vec<u8>,
}

fn hint_ok(nb: NextByte, alpha: &AlphabetInfo, d: &Dfa, p: &Part, q: u32) -> Result<(), String> {
    let acc = d.acc[q as usize];
    let live = |b: u8| d.live[d.step(q, p.class_of[b as usize] as usize) as usize];
    match nb {
        NextByte::ForcedByte(s) => {
            if acc {
                return Err(format!("next byte {nb:?} where the empty string matches"));
            }
            for b in 0..=255u8 {
                if alpha.map(b) != s as usize && live(b) {
                    return Err(format!("next byte {nb:?} but byte {b:#x} (symbol {}) also leads to a match", alpha.map(b)));
                }
            }
        }
        NextByte::ForcedEOI => {
            if (0..=255u8).any(live) {
                return Err(format!("next byte {nb:?} but some byte leads to a match"));
            }
            if !acc && d.live[q as usize] {
                return Err(format!("next byte {nb:?} on an expression that does not match the empty string"));
            }
        }
        NextByte::Dead => {
            if d.live[q as usize] {
                return Err("next byte Dead but something matches".into());
            }
        }
        NextByte::SomeBytes => {}
    }
    Ok(())
}

fn check_node(
    g: &mut Eng,
    alpha: &AlphabetInfo,
    n: &Node,
    d: &Dfa,
    p: &Part,
    mode: u8,
    seen_hint: &mut HashMap<ExprRef, NextByte>,
) -> Result<(), String> {
    let (acc, live) = (d.acc[n.q as usize], d.live[n.q as usize]);
    let null = g.es.is_nullable(n.e);
    if null != acc {
        return Err(format!("is_nullable = {null}, expected {acc}"));
    }
    if g.es.is_positive(n.e) && !live {
        return Err("flagged as certainly non-empty, but nothing matches".into());
    }
    if mode == 4 || mode == 6 {
        // limited queries first: an answer must be right, an error must not spoil anything
        for fuel in [0u64, 1, 3, 10, 40] {
            if let Ok(r) = g.rc.is_non_empty_limited(&mut g.es, n.e, fuel) {
                if r != live {
                    return Err(format!("is_non_empty with fuel {fuel} = {r}, expected {live}"));
                }
            }
        }
    }
    for _ in 0..2 {
        let r = g.rc.is_non_empty(&mut g.es, n.e);
        if r != live {
            return Err(format!("is_non_empty = {r}, expected {live}"));
        }
    }
    let nb = g.nb.next_byte(&g.es, n.e);
    hint_ok(nb, alpha, d, p, n.q)?;
    if *seen_hint.entry(n.e).or_insert(nb) != nb {
        return Err(format!("the next-byte answer changed to {nb:?}"));
    }
    // the same node asked with fresh caches gives the same verdicts
    if mode == 5 {
        let r = RelevanceCache::new().is_non_empty(&mut g.es, n.e);
        if r != live {
            return Err(format!("is_non_empty with a fresh cache = {r}, expected {live}"));
        }
        let x = NextByteCache::new().next_byte(&g.es, n.e);
        if x != nb {
            return Err(format!("next byte with a fresh cache = {x:?}, shared cache said {nb:?}"));
        }
    }
    Ok(())
}

impl Check for SharedPieces {
    type Case = ShCase;
    type Scratch = Refs;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn scratch(&self) -> Refs {
        Refs::new()
    }
    fn families(&self, tier: Tier) -> Vec<Fam<ShCase>> {
        let part = Arc::new(ab_part());
        let mut fams = vec![];
        // ordered pairs of small terms
        let pool: Vec<Term> = {
            let p = Pool::new(leaves_full(), uns_full(), BINS.to_vec(), 2).all();
            if tier == Tier::Thorough {
                p
            } else {
                p.into_iter().step_by(2).collect()
            }
        };
        let n = pool.len() as u64;
        let pt = part.clone();
        fams.push(Fam::new(
            "pairs-small",
            &format!("every ordered pair of {n} terms of size <= 2, {MODES} query orders"),
            n * n * MODES,
            move |i| {
                Some(ShCase {
                    terms: vec![pool[(i % n) as usize].clone(), pool[(i / n % n) as usize].clone()],
                    mode: (i / n / n) as u8,
                    part: Some(pt.clone()),
                })
            },
        ));
        // each term of size <= 3/4 with two fixed partners
        let pool = Pool::new(leaves_full(), uns_full(), BINS.to_vec(), tier.pick(3, 4)).all();
        let n = pool.len() as u64;
        let pt = part.clone();
        let partners = [
            vec![Term::Cat(vec![star(byte(b'a')), byte(b'b')]), not(Term::Cat(vec![byte(b'a'), byte(b'a')]))],
            vec![Term::And(vec![not(byte(b'a')), star(byte(b'a'))]), Term::Or(vec![Term::Lit(b"ab".to_vec()), byte(b'b')])],
            vec![],
        ];
        fams.push(Fam::new(
            "with-partners",
            &format!("each of {n} terms among fixed partners, first, middle or alone, {MODES} query orders"),
            n * 3 * MODES,
            move |i| {
                let t = pool[(i % n) as usize].clone();
                let k = (i / n % 3) as usize;
                let mut v = partners[k].clone();
                v.insert(k.min(v.len()), t);
                Some(ShCase { terms: v, mode: (i / n / 3) as u8, part: Some(pt.clone()) })
            },
        ));
        // triples from a tiny pool
        let tiny = vec![
            byte(b'a'),
            Term::None,
            not(Term::None),
            star(byte(b'a')),
            Term::Cat(vec![byte(b'a'), byte(b'b')]),
            Term::Cat(vec![byte(b'a'), not(byte(b'b'))]),
            Term::And(vec![star(byte(b'a')), not(Term::Eps)]),
            Term::And(vec![star(byte(b'a')), Term::Cat(vec![any(), byte(b'b')])]),
            pre(Term::Lit(b"abb".to_vec())),
            Term::Or(vec![Term::Lit(b"aab".to_vec()), Term::Lit(b"aba".to_vec())]),
        ];
        let n = tiny.len() as u64;
        fams.push(Fam::new(
            "triples",
            &format!("every ordered triple of {n} terms, {MODES} query orders"),
            n * n * n * MODES,
            move |i| {
                let v = [i % n, i / n % n, i / n / n % n].map(|k| tiny[k as usize].clone());
                Some(ShCase { terms: v.to_vec(), mode: (i / n / n / n) as u8, part: Some(part.clone()) })
            },
        ));
        // the families of C01/C04/C06, each expression alone and with a partner
        for f in standard(tier) {
            let get = f.get;
            let k = tier.pick(2, 2 * MODES);
            fams.push(Fam::new(
                &format!("shared-{}", f.name),
                &format!("{}; alone and with a partner, query orders in turn", f.note),
                f.count * k,
                move |i| {
                    let c = get(i / k)?;
                    let mode = if k == 2 { (i / 2 + 3 * (i % 2)) % MODES } else { i / 2 % MODES };
                    let mut terms = vec![c.term.clone()];
                    let mut part = c.part.clone();
                    if i % 2 == 1 {
                        // a partner over the same bytes keeps the alphabet
                        let x = match &c.term {
                            Term::Cat(v) | Term::Or(v) | Term::And(v) if v.len() > 1 => v[v.len() - 1].clone(),
                            t => Term::Cat(vec![star(any()), t.clone()]),
                        };
                        terms.insert((i / 2 % 2) as usize, not(x));
                        if part.is_none() {
                            let mut v = vec![];
                            terms.iter().for_each(|t| t.sets(&mut v));
                            part = Some(Arc::new(Part::from_sets(&v)));
                        }
                    }
                    Some(ShCase { terms, mode: mode as u8, part })
                },
            ));
        }
        // alphabets of many sizes
        let mut v = vec![];
        for n in (1..=70usize).chain([95, 96, 97, 127, 128, 129, 191, 192, 193, 253, 254, 255, 256]) {
            let w: Vec<u8> = (0..n).map(|i| (i * 167 % 256) as u8).collect();
            let k = n / 2;
            let m = (n - 1) as u8;
            for mode in 0..MODES as u8 {
                v.push(ShCase {
                    terms: vec![
                        Term::Lit(w[..k].to_vec()),
                        not(Term::Lit(w[k..].to_vec())),
                        Term::And(vec![star(range(0, m)), not(Term::Cat(vec![any(), byte(m)]))]),
                        Term::Cat(vec![range(0, m), range(m, 255)]),
                        Term::Or(vec![Term::Cat(vec![byte(0), byte(m)]), Term::Cat(vec![byte(m), byte(0)])]),
                    ],
                    mode,
                    part: None,
                });
            }
        }
        fams.push(Fam::list("alphabet-sizes", "five expressions over alphabets of many sizes, all query orders", v));
        // long lists, the way a lexer has them
        let mut v = vec![];
        let longest = 300;
        for n in [4usize, 5, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 66, 70, 100, 127, 128, 129, 150, 200, 255, 256, 257, 300] {
            for kind in 0..5u8 {
                let term = |i: usize| -> Term {
                    let w = vec![b'a' + (i % 7) as u8, b'h' + (i / 7 % 7) as u8, b'o' + (i / 49 % 7) as u8];
                    match (kind, i % 5) {
                        // keywords, at the end a catch-all
                        (0, _) if i + 1 == n => Term::Cat(vec![range(b'a', b'z'), star(range(b'a', b'z'))]),
                        (0, _) => Term::Lit(w),
                        // single byte sets, no two alike
                        (1, _) => range((i * 3 % 200) as u8, (i * 3 % 200 + 1 + i / 64) as u8),
                        // keywords and what keywords must not be
                        (2, 0) => not(Term::Lit(w)),
                        (2, 1) => Term::And(vec![star(range(b'a', b'c')), not(Term::Lit(w))]),
                        (2, 2) => Term::Cat(vec![star(byte(w[0])), Term::Lit(w)]),
                        (2, 3) => pre(Term::Lit(w)),
                        (2, _) => Term::And(vec![Term::Lit(w.clone()), star(range(b'a', w[2]))]),
                        // the same few expressions again and again
                        (3, k) => [
                            Term::Lit(b"ab".to_vec()),
                            not(Term::Lit(b"ab".to_vec())),
                            Term::None,
                            star(range(b'a', b'b')),
                            Term::Cat(vec![star(any()), byte(b'c')]),
                        ][k]
                        .clone(),
                        // one odd expression, last, first or in the middle
                        (_, _) if i == [0, n / 2, n - 1][n % 3] => Term::And(vec![star(byte(b'x')), not(Term::Cat(vec![byte(b'x'), byte(b'y')]))]),
                        (_, _) => byte(i as u8),
                    }
                };
                for mode in 0..MODES as u8 {
                    v.push(ShCase { terms: (0..n).map(term).collect(), mode, part: None });
                }
            }
        }
        fams.push(Fam::list(
            "long-lists",
            &format!("lists of 4 to {longest} expressions (keywords and a catch-all, byte sets, complements and intersections, repeats of the same few), all query orders"),
            v,
        ));
        fams
    }
    fn text(&self, c: &ShCase) -> String {
        format!("{} {}", c.mode, c.terms.iter().map(|t| t.text()).collect::<Vec<_>>().join(" ; "))
    }
    fn parse(&self, s: &str) -> ShCase {
        let (m, r) = s.split_once(' ').unwrap();
        ShCase { mode: m.parse().unwrap(), terms: r.split(" ; ").map(Term::parse).collect(), part: None }
    }
    fn run(&self, c: &ShCase, w: &mut Refs, st: &mut Stats) -> Result<(), String> {
        let own;
        let p: &Part = match &c.part {
            Some(p) => p,
            None => {
                let mut v = vec![];
                c.terms.iter().for_each(|t| t.sets(&mut v));
                own = Part::from_sets(&v);
                &own
            }
        };
        let l = w.langs(p);
        let ds: Vec<Arc<Dfa>> = c
            .terms
            .iter()
            .map(|t| {
                let id = t.lang(l, p);
                l.get(id).clone()
            })
            .collect();
        let mut b = RegexBuilder::new();
        let mut refs = vec![];
        for t in &c.terms {
            refs.push(b.mk(&t.to_ast()).map_err(|e| format!("building failed: {e}"))?);
        }
        let (alpha, es, roots) = AlphabetInfo::from_exprset(b.exprset(), &refs);
        if roots.len() != refs.len() {
            return Err(format!("{} expressions in, {} out", refs.len(), roots.len()));
        }
        let dref: Vec<&Dfa> = ds.iter().map(|d| &**d).collect();
        mc::c09_alphabet::check_alpha(&alpha, &dref, p)?;
        let mut g = Eng { es, dc: DerivCache::new(), nb: NextByteCache::new(), rc: RelevanceCache::new() };
        let mut hints = HashMap::new();
        let mut todo: VecDeque<Node> = VecDeque::new();
        let idx: Vec<usize> = match c.mode {
            1 => (0..roots.len()).rev().collect(),
            _ => (0..roots.len()).collect(),
        };
        let mut seen: HashSet<(usize, ExprRef, u32)> = HashSet::new();
        for i in idx {
            seen.insert((i, roots[i], 0));
            todo.push_back(Node { i, e: roots[i], q: 0, path: vec![] });
        }
        let reps = p.reps();
        const CAP: usize = 4000;
        let mut capped = false;
        let mut later: Vec<(ExprRef, usize, u32)> = vec![];
        while let Some(n) = match c.mode {
            // 0,1: finish one expression before the next; 2,4,5,6: interleaved; 3: depth first
            0 | 1 => {
                let first = todo.front().map(|n| n.i);
                let k = todo.iter().position(|n| Some(n.i) == first);
                k.and_then(|k| todo.remove(k))
            }
            3 => todo.pop_back(),
            _ => todo.pop_front(),
        } {
            let d = &ds[n.i];
            let ctx = |m: String| format!("expression {} after {}: {m}", n.i, show_bytes(&n.path));
            if c.mode == 2 {
                // emptiness and hints are asked only after all derivatives exist
                later.push((n.e, n.i, n.q));
                if g.es.is_nullable(n.e) != d.acc[n.q as usize] {
                    return Err(ctx("is_nullable is wrong".into()));
                }
            } else {
                check_node(&mut g, &alpha, &n, d, p, c.mode, &mut hints).map_err(ctx)?;
            }
            if c.mode == 6 && seen.len() % 5 == 3 {
                // continue on a clone; the old one is asked once more afterwards
                let mut old = g.clone();
                std::mem::swap(&mut old, &mut g);
                check_node(&mut old, &alpha, &n, d, p, c.mode, &mut hints).map_err(ctx)?;
            }
            for &byte in &reps {
                let s = alpha.map(byte) as u8;
                let e = g.dc.derivative(&mut g.es, n.e, s);
                let q = d.step(n.q, p.class_of[byte as usize] as usize);
                st.transitions += 1;
                if c.mode == 5 {
                    let e2 = DerivCache::new().derivative(&mut g.es, n.e, s);
                    if e2 != e {
                        return Err(ctx(format!("derivative by symbol {s} differs between a fresh and a shared cache")));
                    }
                }
                if seen.insert((n.i, e, q)) {
                    if seen.len() > CAP {
                        capped = true;
                        continue;
                    }
                    let mut path = n.path.clone();
                    path.push(byte);
                    todo.push_back(Node { i: n.i, e, q, path });
                }
            }
        }
        later.reverse();
        for (e, i, q) in later {
            let n = Node { i, e, q, path: vec![] };
            check_node(&mut g, &alpha, &n, &ds[i], p, c.mode, &mut hints)
                .map_err(|m| format!("expression {i}, a derivative asked late: {m}"))?;
        }
        st.states += seen.len() as u64;
        st.capped += capped as u64;
        st.outcome(&(c.mode, ds.iter().map(|d| (&d.trans, &d.acc)).collect::<Vec<_>>()));
        Ok(())
    }
    fn rule(&self) -> String {
        "each list of expressions is compiled over one alphabet and its derivative graphs are explored to a fixpoint \
         together with the reference automata, sharing one derivative, next-byte and emptiness cache, in seven query orders \
         (sequential, reversed, derivatives first, depth first, fuel-limited first, against fresh caches, across clones)"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["reference automata as for C01".into(), "exploration of one case stops at 4000 nodes (counted as capped)".into()]
    }
}
