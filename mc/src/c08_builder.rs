//! C08: a shared builder: what was built, compiled, quoted or refused before changes nothing.
//!
//! Every sequence of builder operations up to a depth is run on the real RegexBuilder (and a
//! clone of it).  Each reference is remembered with the recipe it came from; at the end every
//! recipe is requested again (same reference), and the compiled language of every reference is
//! compared, to a fixpoint, with the one a builder that did nothing else produces.

use crate::c02_patterns::bad;
use crate::c20_flags::{DEF, F};
use crate::explore::show_bytes;
use crate::families::*;
use crate::lang::INF;
use crate::pat::from_hir;
use crate::run::*;
use crate::term::{any, bset, words_of, Term};
use crate::util::*;
use derivre::{ExprRef, JsonQuoteOptions, Regex, RegexAst, RegexBuilder};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Lit(&'static str),
    Cls(u8, u8),
    Not,
    Pre,
    Rep(u32, u32),
    /// both arguments and a literal
    Or,
    And,
    Cat,
    La,
}
#[derive(PartialEq, Eq, Hash, Debug)]
pub enum Rec {
    Ast(K, Vec<Rc<Rec>>),
    Pat(&'static str, F),
    Json(Rc<Rec>, u8),
    Contained(&'static str, &'static str, F),
}

const QUOTE_OPTS: [(&str, bool); 12] = [
    ("", false),
    ("", true),
    ("n", false),
    ("n", true),
    ("t", false),
    ("u", false),
    ("nt", false),
    ("tn", true),
    ("nu", false),
    ("\\\"", false),
    ("nrbtf\\\"u", false),
    ("nrbtf\\\"", true),
];
/// expressions the quoting histories quote
const QUOTED: [&str; 10] =
    ["\\n", "[\\n\\t]", "[^a]", "a|\\n", "(\\n|a)*", "\"", "\\\\", "[\\x00-\\x1f]{1,2}", "é\\t?", "[\\x7f\\n]+a"];

fn opts(i: u8) -> JsonQuoteOptions {
    match i {
        0 => JsonQuoteOptions::with_unicode(),
        1 => JsonQuoteOptions::no_unicode(),
        2 => JsonQuoteOptions { allowed_escapes: "n\"".into(), raw_mode: false },
        3 => JsonQuoteOptions { allowed_escapes: "nz".into(), raw_mode: true },
        // option sets of the quoting histories: same lengths, same letters, both modes
        i => {
            let (e, raw) = QUOTE_OPTS[i as usize - 4];
            JsonQuoteOptions { allowed_escapes: e.into(), raw_mode: raw }
        }
    }
}

fn ast(k: K, a: Vec<RegexAst>) -> RegexAst {
    let mut a = a;
    let one = |a: &mut Vec<RegexAst>| Box::new(a.remove(0));
    match k {
        K::Lit(s) => RegexAst::Literal(s.into()),
        K::Cls(x, y) => RegexAst::ByteSet(words_of(&bset(|b| b >= x && b <= y))),
        K::Not => RegexAst::Not(one(&mut a)),
        K::Pre => RegexAst::Prefixes(one(&mut a)),
        K::Rep(x, y) => RegexAst::Repeat(one(&mut a), x, y),
        K::Or => {
            a.push(RegexAst::Literal("ba".into()));
            RegexAst::Or(a)
        }
        K::And => {
            let x = a.pop().unwrap();
            a.push(RegexAst::Not(Box::new(x)));
            RegexAst::And(a)
        }
        K::Cat => RegexAst::Concat(a),
        K::La => RegexAst::Concat(vec![a.remove(0), RegexAst::LookAhead(Box::new(RegexAst::Literal("ab".into())))]),
    }
}

fn apply_flags(b: &mut RegexBuilder, f: &F) {
    b.unicode(f.unicode);
    b.utf8(f.utf8);
    b.ignore_whitespace(f.x);
    b.case_insensitive(f.i);
    b.dot_matches_new_line(f.s);
}

/// one request; arguments are references of this builder
fn request(b: &mut RegexBuilder, r: &Rec, args: &[ExprRef]) -> Result<ExprRef, String> {
    match r {
        Rec::Ast(k, _) => b.mk(&ast(*k, args.iter().map(|e| RegexAst::ExprRef(*e)).collect())),
        Rec::Pat(p, _) => b.mk_regex(p),
        Rec::Json(_, o) => b.json_quote(args[0], &opts(*o)),
        Rec::Contained(x, y, _) => b.mk_contained_in(x, y),
    }
    .map_err(|e| e.to_string())
}
fn kids(r: &Rec) -> Vec<Rc<Rec>> {
    match r {
        Rec::Ast(_, a) => a.clone(),
        Rec::Json(a, _) => vec![a.clone()],
        _ => vec![],
    }
}
fn rec_flags(r: &Rec) -> F {
    match r {
        Rec::Pat(_, f) | Rec::Contained(_, _, f) => *f,
        _ => DEF,
    }
}
fn has_la(r: &Rec) -> bool {
    matches!(r, Rec::Ast(K::La, _)) || kids(r).iter().any(|k| has_la(k))
}
/// a whole recipe in some builder
fn build(b: &mut RegexBuilder, r: &Rec) -> Result<ExprRef, String> {
    let mut a = vec![];
    for k in kids(r) {
        a.push(build(b, &k)?);
    }
    apply_flags(b, &rec_flags(r));
    request(b, r, &a)
}
/// nested syntax tree of a recipe made of plain nodes only
fn tree(r: &Rec) -> Option<RegexAst> {
    match r {
        Rec::Ast(k, a) => {
            let mut v = vec![];
            for x in a {
                v.push(tree(x)?);
            }
            Some(ast(*k, v))
        }
        _ => None,
    }
}

/// the automaton of a recipe built alone
pub struct Machine {
    class_of: Vec<u8>,
    k: usize,
    trans: Vec<u32>,
    out: Vec<(bool, Option<usize>)>,
    nullable: bool,
}
const CAP: usize = 400;

fn machine(rx: &mut Regex, nullable: bool) -> Machine {
    let class_of: Vec<u8> = (0..=255u8).map(|b| rx.alpha().map(b) as u8).collect();
    let k = rx.alpha().len();
    let rep: Vec<u8> =
        (0..k).map(|c| class_of.iter().position(|x| *x as usize == c).unwrap() as u8).collect();
    let s0 = rx.initial_state();
    let mut ids = HashMap::new();
    ids.insert(s0, 0u32);
    let mut states = vec![s0];
    let mut m = Machine { class_of, k, trans: vec![], out: vec![], nullable };
    let mut i = 0;
    while i < states.len() {
        let s = states[i];
        m.out.push((s.is_dead(), rx.lookahead_len_for_state(s)));
        for c in 0..k {
            if i >= CAP {
                m.trans.push(u32::MAX);
                continue;
            }
            let t = rx.transition(s, rep[c]);
            let n = states.len() as u32;
            m.trans.push(*ids.entry(t).or_insert_with(|| {
                states.push(t);
                n
            }));
        }
        i += 1;
    }
    m
}

fn compare(rx: &mut Regex, m: &Machine, st: &mut Stats) -> Result<(), String> {
    let mut bytes = vec![];
    let mut seen_cls = std::collections::HashSet::new();
    for b in 0..=255u8 {
        if seen_cls.insert((rx.alpha().map(b), m.class_of[b as usize])) {
            bytes.push(b);
        }
    }
    let mut seen = std::collections::HashMap::new();
    let s0 = rx.initial_state();
    let mut todo = vec![(s0, 0u32)];
    seen.insert(todo[0], (usize::MAX, 0u8));
    let mut i = 0;
    while i < todo.len() {
        let (s, q) = todo[i];
        st.states += 1;
        let o = (s.is_dead(), rx.lookahead_len_for_state(s));
        if o != m.out[q as usize] {
            let mut w = vec![];
            let mut j = i;
            loop {
                let (p, b) = seen[&todo[j]];
                if p == usize::MAX {
                    break;
                }
                w.push(b);
                j = p;
            }
            w.reverse();
            return Err(format!(
                "after {}: (dead, accepted with lookahead) = {o:?}; built alone: {:?}",
                show_bytes(&w),
                m.out[q as usize]
            ));
        }
        for &b in &bytes {
            let t = m.trans[q as usize * m.k + m.class_of[b as usize] as usize];
            if t == u32::MAX {
                continue;
            }
            let n = (rx.transition(s, b), t);
            st.transitions += 1;
            if !seen.contains_key(&n) {
                seen.insert(n, (i, b));
                todo.push(n);
            }
        }
        i += 1;
    }
    Ok(())
}

#[derive(Default)]
pub struct Scratch {
    machines: HashMap<Rc<Rec>, Option<Rc<Machine>>>,
    refs: Option<Refs>,
}
impl Scratch {
    fn get(&mut self, r: &Rc<Rec>) -> Result<Option<Rc<Machine>>, String> {
        if let Some(m) = self.machines.get(r) {
            return Ok(m.clone());
        }
        if self.machines.len() > 200_000 {
            self.machines.clear();
        }
        let mut b = RegexBuilder::new();
        let m = match build(&mut b, r) {
            Ok(e) => {
                let mut rx = b.to_regex(e);
                Some(Rc::new(machine(&mut rx, b.is_nullable(e))))
            }
            Err(_) => None,
        };
        self.machines.insert(r.clone(), m.clone());
        Ok(m)
    }
}

struct Got {
    e: ExprRef,
    args: Vec<ExprRef>,
    rec: Rc<Rec>,
}
#[derive(Clone)]
struct World {
    b: RegexBuilder,
    f: F,
    got: Vec<Rc<Got>>,
    cur: usize,
}

const NAMES: [&str; 31] = [
    "literal", "class", "pattern", "pattern-dot", "not", "or", "and", "cat", "repeat-optional", "repeat", "prefixes",
    "lookahead", "quote", "quote-limited", "compile", "compile-with-fuel", "contained", "clone-switch", "flag-i", "flag-x-s",
    "flag-bytes", "older", "bad-pattern", "bad-set", "bad-ref", "bad-range", "bad-quote", "bad-assertion", "bad-contained",
    "bad-nested", "nullable",
];

impl World {
    fn new() -> World {
        World { b: RegexBuilder::new(), f: DEF, got: vec![], cur: 0 }
    }
    fn last(&self) -> Option<Rc<Got>> {
        self.got.get(self.cur).cloned()
    }
    fn ask(&mut self, rec: Rec, args: Vec<ExprRef>, sc: &mut Scratch) -> Result<(), String> {
        let rec = Rc::new(rec);
        let m = sc.get(&rec)?;
        let r = request(&mut self.b, &rec, &args);
        match (r, m) {
            (Ok(e), Some(m)) => {
                if self.b.is_nullable(e) != m.nullable {
                    return Err(format!("is_nullable({rec:?}) = {}", !m.nullable));
                }
                self.got.push(Rc::new(Got { e, args, rec }));
                self.cur = self.got.len() - 1;
                Ok(())
            }
            (Err(_), None) => Ok(()),
            (Ok(_), None) => Err(format!("{rec:?} succeeds here but fails when built alone")),
            (Err(e), Some(_)) => Err(format!("{rec:?} fails here ({e}) but succeeds when built alone")),
        }
    }
    fn op(&mut self, op: u8, sc: &mut Scratch, st: &mut Stats) -> Result<(), String> {
        let last = self.last();
        let first = self.got.first().cloned();
        let a = |k: K, g: Vec<Rc<Got>>| {
            (Rec::Ast(k, g.iter().map(|x| x.rec.clone()).collect()), g.iter().map(|x| x.e).collect::<Vec<_>>())
        };
        // nodes inside which a lookahead has no defined meaning are not built on top of one
        let plain = |g: &Option<Rc<Got>>| g.as_ref().map_or(false, |g| !has_la(&g.rec));
        let two = plain(&last) && plain(&first);
        let fail = |r: Result<ExprRef, String>| match r {
            Ok(e) => Err(format!("accepted, as reference {}", e.as_usize())),
            Err(_) => Ok(()),
        };
        let mk = |b: &mut RegexBuilder, x: RegexAst| b.mk(&x).map_err(|e| e.to_string());
        let lit = |s: &str| RegexAst::Literal(s.into());
        match op {
            0 => self.ask(Rec::Ast(K::Lit("ab"), vec![]), vec![], sc)?,
            1 => self.ask(Rec::Ast(K::Cls(b'a', b'b'), vec![]), vec![], sc)?,
            2 => self.ask(Rec::Pat("a b*", self.f), vec![], sc)?,
            3 => self.ask(Rec::Pat(".|ab", self.f), vec![], sc)?,
            4 | 8 | 9 | 10 | 11 => {
                if plain(&last) {
                    let k = match op {
                        4 => K::Not,
                        8 => K::Rep(0, 2),
                        9 => K::Rep(2, INF),
                        10 => K::Pre,
                        _ => K::La,
                    };
                    let (r, g) = a(k, vec![last.unwrap()]);
                    self.ask(r, g, sc)?
                }
            }
            5..=7 => {
                if two {
                    let k = [K::Or, K::And, K::Cat][op as usize - 5];
                    let (r, g) = a(k, vec![last.unwrap(), first.unwrap()]);
                    self.ask(r, g, sc)?
                }
            }
            12 | 13 => {
                if plain(&last) {
                    let l = last.unwrap();
                    let o = if op == 12 { 0 } else { 2 };
                    self.ask(Rec::Json(l.rec.clone(), o), vec![l.e], sc)?
                }
            }
            14 => {
                if let Some(l) = last {
                    let m = sc.get(&l.rec)?.unwrap();
                    let mut rx = self.b.to_regex(l.e);
                    compare(&mut rx, &m, st)?;
                }
            }
            15 => {
                if let Some(l) = last {
                    let m = sc.get(&l.rec)?.unwrap();
                    for fuel in [0, 1, 3, 100] {
                        if let Ok(mut rx) = self.b.to_regex_limited(l.e, fuel) {
                            compare(&mut rx, &m, st).map_err(|m| format!("fuel {fuel}: {m}"))?;
                        }
                    }
                }
            }
            16 => {
                for (x, y, e) in [("[ab]+", "[abc]+", true), ("[abc]{2}", "[ab]*", false)] {
                    if self.b.is_contained_in(x, y, u64::MAX).map_err(|e| e.to_string())? != e {
                        return Err(format!("{x} in {y}: {}", !e));
                    }
                    self.b.is_contained_in(x, y, 2).ok();
                }
                self.ask(Rec::Contained("ab?", "a|ab", self.f), vec![], sc)?
            }
            18 => {
                self.f.i = !self.f.i;
                apply_flags(&mut self.b, &self.f);
            }
            19 => {
                self.f.x = !self.f.x;
                self.f.s = !self.f.s;
                apply_flags(&mut self.b, &self.f);
            }
            20 => {
                self.f.unicode = !self.f.unicode;
                self.f.utf8 = !self.f.utf8;
                apply_flags(&mut self.b, &self.f);
            }
            21 => self.cur = self.cur.saturating_sub(1),
            22 => fail(mk(&mut self.b, RegexAst::Or(vec![lit("qq"), RegexAst::Regex("(a".into())])))?,
            23 => {
                for n in [0, 1, 7, 9, 16] {
                    fail(mk(&mut self.b, RegexAst::Concat(vec![lit("zz"), RegexAst::ByteSet(vec![1; n])])))?
                }
            }
            24 => {
                // the first identifier that stands for nothing yet
                let n = self.b.exprset().len() as u32;
                fail(mk(&mut self.b, RegexAst::ExprRef(ExprRef::new(n))))?;
                fail(mk(&mut self.b, RegexAst::Not(Box::new(RegexAst::ExprRef(ExprRef::new(n))))))?;
                for r in [ExprRef::INVALID, ExprRef::new(1 << 20), ExprRef::new(u32::MAX)] {
                    fail(mk(&mut self.b, RegexAst::And(vec![lit("yy"), RegexAst::ExprRef(r)])))?
                }
            }
            25 => {
                for (x, y) in [(3, 2), (1, 0), (INF, 0), (INF, 7)] {
                    let inner = match &last {
                        Some(l) => RegexAst::ExprRef(l.e),
                        None => lit("ab"),
                    };
                    fail(mk(&mut self.b, RegexAst::Or(vec![lit("ab"), RegexAst::Repeat(Box::new(inner), x, y)])))?
                }
            }
            26 => {
                if let Some(l) = last {
                    fail(self.b.json_quote(l.e, &opts(3)).map_err(|e| e.to_string()))?
                }
            }
            27 => fail(self.b.mk_regex("x\\by").map_err(|e| e.to_string()))?,
            28 => {
                fail(self.b.mk_contained_in("ab", "(").map_err(|e| e.to_string()))?;
                fail(self.b.mk_contained_in("[", "ab").map_err(|e| e.to_string()))?;
                if self.b.is_contained_in("a", "a{2,1}", 10).is_ok() {
                    return Err("containment in a malformed pattern has an answer".into());
                }
                fail(self.b.mk_contained_in_ast(&lit("ab"), &RegexAst::ByteSet(vec![])).map_err(|e| e.to_string()))?
            }
            29 => {
                let deep = RegexAst::Not(Box::new(RegexAst::Repeat(
                    Box::new(RegexAst::Or(vec![lit("ab"), RegexAst::Prefixes(Box::new(RegexAst::ByteSet(vec![0; 3])))])),
                    0,
                    2,
                )));
                fail(mk(&mut self.b, RegexAst::Concat(vec![lit("ab"), deep, RegexAst::NoMatch])))?
            }
            30 => {
                for g in &self.got {
                    let m = sc.get(&g.rec)?.unwrap();
                    if self.b.is_nullable(g.e) != m.nullable {
                        return Err(format!("is_nullable({:?}) changed to {}", g.rec, !m.nullable));
                    }
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    fn final_check(&mut self, sc: &mut Scratch, st: &mut Stats) -> Result<(), String> {
        let f = self.f;
        for g in &self.got.clone() {
            apply_flags(&mut self.b, &rec_flags(&g.rec));
            let again = request(&mut self.b, &g.rec, &g.args)
                .map_err(|e| format!("{:?} succeeded before and now fails: {e}", g.rec))?;
            if again != g.e {
                return Err(format!("{:?} was reference {} and now is {}", g.rec, g.e.as_usize(), again.as_usize()));
            }
            if let Some(t) = tree(&g.rec) {
                let e = self.b.mk(&t).map_err(|e| e.to_string())?;
                if e != g.e {
                    return Err(format!(
                        "{:?} is reference {}, as one syntax tree {}",
                        g.rec,
                        g.e.as_usize(),
                        e.as_usize()
                    ));
                }
            }
        }
        for g in &self.got.clone() {
            let m = sc.get(&g.rec)?.unwrap();
            if self.b.is_nullable(g.e) != m.nullable {
                return Err(format!("is_nullable({:?}) changed to {}", g.rec, !m.nullable));
            }
            let mut rx = self.b.to_regex(g.e);
            compare(&mut rx, &m, st).map_err(|m| format!("{:?}: {m}", g.rec))?;
        }
        self.f = f;
        apply_flags(&mut self.b, &f);
        Ok(())
    }
}

#[derive(Clone)]
pub enum BCase {
    Seq(Vec<u8>),
    /// terms built one after the other in one builder; the last is checked (and the first again)
    Terms(Vec<Term>),
    /// a term with one malformed leaf (position, kind), built between good requests
    Bad(Term, usize, usize),
    /// malformed pattern
    BadPat(String),
    /// quoting requests in one builder: (expression, its complement instead, options)
    Quotes(Vec<(u8, bool, u8)>),
    /// many unrelated expressions in between: (how many, how)
    Bulk(u32, u32),
}

pub struct Builder;

const ALL: u8 = 31;
/// reduced operation set for longer sequences
const SOME: [u8; 14] = [0, 2, 4, 5, 6, 10, 12, 14, 17, 18, 23, 25, 26, 29];

fn leaf_count(t: &Term) -> usize {
    match t {
        Term::Cat(v) | Term::Or(v) | Term::And(v) => v.iter().map(leaf_count).sum(),
        Term::Not(t) | Term::Pre(t) | Term::Rep(t, _, _) | Term::La(t) => leaf_count(t),
        _ => 1,
    }
}
const NBAD: usize = 9;
fn bad_leaf(kind: usize) -> RegexAst {
    let lit = |s: &str| RegexAst::Literal(s.into());
    match kind {
        0 => RegexAst::Regex("a(".into()),
        1 => RegexAst::Regex("a\\bb".into()),
        2 => RegexAst::ByteSet(vec![]),
        3 => RegexAst::ByteSet(vec![0xffff_ffff; 7]),
        4 => RegexAst::ByteSet(vec![0; 256]),
        5 => RegexAst::ExprRef(ExprRef::INVALID),
        6 => RegexAst::ExprRef(ExprRef::new(123_456_789)),
        7 => RegexAst::Repeat(Box::new(lit("ab")), 2, 1),
        _ => RegexAst::Repeat(Box::new(RegexAst::EmptyString), INF, INF - 1),
    }
}
fn with_bad(t: &Term, pos: &mut isize, kind: usize) -> RegexAst {
    let mut many = |v: &Vec<Term>| v.iter().map(|x| with_bad(x, pos, kind)).collect::<Vec<_>>();
    match t {
        Term::Cat(v) => RegexAst::Concat(many(v)),
        Term::Or(v) => RegexAst::Or(many(v)),
        Term::And(v) => RegexAst::And(many(v)),
        Term::Not(x) => RegexAst::Not(Box::new(with_bad(x, pos, kind))),
        Term::Pre(x) => RegexAst::Prefixes(Box::new(with_bad(x, pos, kind))),
        Term::Rep(x, a, b) => RegexAst::Repeat(Box::new(with_bad(x, pos, kind)), *a, *b),
        _ => {
            *pos -= 1;
            if *pos == -1 {
                bad_leaf(kind)
            } else {
                t.to_ast()
            }
        }
    }
}

fn term_machine(t: &Term) -> Result<Machine, String> {
    let mut b = RegexBuilder::new();
    let e = b.mk(&t.to_ast()).map_err(|e| e.to_string())?;
    let mut rx = b.to_regex(e);
    Ok(machine(&mut rx, b.is_nullable(e)))
}
fn against_ref(b: &RegexBuilder, e: ExprRef, t: &Term, w: &mut Refs, st: &mut Stats) -> Result<(), String> {
    use crate::explore::*;
    let c = LCase { term: t.clone(), part: Some(Arc::new(ab_part())) };
    with_ref(&c, w, |d, p| {
        if b.is_nullable(e) != d.acc[0] {
            return Err("is_nullable is wrong".into());
        }
        let mut rx = b.to_regex(e);
        let m = Mon { acc: true, dead: true, ..MON0 };
        let x = explore(&mut rx, d, p, &Opts { bytes: Bytes::Reps1, mon: m, cap: 60_000 })?;
        x.record(st);
        Ok(())
    })
    .map_err(|m: String| format!("{}: {m}", t.text()))
}

impl Check for Builder {
    type Case = BCase;
    type Scratch = Scratch;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn scratch(&self) -> Scratch {
        Scratch::default()
    }
    fn families(&self, tier: Tier) -> Vec<Fam<BCase>> {
        let mut v = vec![];
        let seq = |name: &str, ops: Vec<u8>, depth: u32| {
            let n = ops.len() as u64;
            Fam::new(
                name,
                &format!("every sequence of {depth} out of {n} builder operations"),
                n.pow(depth),
                move |mut i| {
                    let mut s = vec![];
                    for _ in 0..depth {
                        s.push(ops[(i % n) as usize]);
                        i /= n;
                    }
                    Some(BCase::Seq(s))
                },
            )
        };
        for d in 1..=4 {
            v.push(seq(&format!("ops-{d}"), (0..ALL).collect(), d));
        }
        v.push(seq("ops-long", SOME.to_vec(), 5));
        if tier == Tier::Thorough {
            v.push(seq("ops-longer", SOME.to_vec(), 6));
        }
        let pool = Pool::new(leaves_core(), uns_core(), BINS.to_vec(), 3).all();
        let n = pool.len() as u64;
        let p2 = pool.clone();
        v.push(Fam::new(
            "pairs",
            &format!("every ordered pair of {n} expressions of size up to 3, the second after the first"),
            n * n,
            move |i| Some(BCase::Terms(vec![p2[(i / n) as usize].clone(), p2[(i % n) as usize].clone()])),
        ));
        let small = Pool::new(leaves_core(), vec![Un::Not, Un::Pre, Un::Rep(0, INF), Un::Rep(1, 2)], BINS.to_vec(), 2).all();
        let k = small.len() as u64;
        if tier == Tier::Thorough {
            let (s2, p2) = (small.clone(), pool.clone());
            v.push(Fam::new(
                "triples",
                &format!("two of {k} small expressions, then one of {n}"),
                k * k * n,
                move |i| {
                    Some(BCase::Terms(vec![
                        s2[(i / n / k) as usize].clone(),
                        s2[(i / n % k) as usize].clone(),
                        p2[(i % n) as usize].clone(),
                    ]))
                },
            ));
        }
        let shapes: Vec<Term> = Pool::new(vec![byte(b'a'), any(), Term::Eps, Term::None], uns_core(), BINS.to_vec(), tier.pick(4, 5)).all();
        let mut bads = vec![];
        for t in &shapes {
            for pos in 0..leaf_count(t) {
                for kind in 0..NBAD {
                    bads.push(BCase::Bad(t.clone(), pos, kind));
                }
            }
        }
        v.push(Fam::list("malformed", "every expression of small size with every leaf replaced by every malformed request", bads));
        let mut bp: Vec<BCase> = bad().into_iter().map(|s| BCase::BadPat(s.into())).collect();
        // every short string of pattern punctuation: it compiles or is refused, never panics
        let alpha: Vec<char> = "a(){}[]*?|\\^$-,1:<".chars().collect();
        for len in 1..=tier.pick(3, 4) {
            for mut i in 0..alpha.len().pow(len) {
                let mut s = String::new();
                for _ in 0..len {
                    s.push(alpha[i % alpha.len()]);
                    i /= alpha.len();
                }
                bp.push(BCase::BadPat(s));
            }
        }
        v.push(Fam::list("patterns", "malformed patterns, and every short string of pattern punctuation", bp));
        let k = QUOTE_OPTS.len() as u64;
        let m = QUOTED.len() as u64;
        // every second (and third) request: the same expression, its complement, or another one
        let step = move |i: u64, e: u64| {
            let (o, w) = (i % k, i / k);
            match w {
                0 => (e as u8, false, o as u8),
                1 => (e as u8, true, o as u8),
                w => (((e + w - 1) % m) as u8, false, o as u8),
            }
        };
        let n = k * (m + 1);
        v.push(Fam::new(
            "quotes-2",
            &format!("every ordered pair of quoting requests: {m} expressions, complements, {k} option sets"),
            2 * m * k * n,
            move |mut i| {
                let neg = i % 2 == 1;
                i /= 2;
                let (e, o, j) = (i / n / k, i / n % k, i % n);
                Some(BCase::Quotes(vec![(e as u8, neg, o as u8), step(j, e)]))
            },
        ));
        v.push(Fam::new(
            "quotes-3",
            &format!("three quoting requests for the same expression, {k} option sets each"),
            m * k * k * k,
            move |i| {
                let e = (i / k / k / k) as u8;
                Some(BCase::Quotes(vec![
                    (e, false, (i / k / k % k) as u8),
                    (e, false, (i / k % k) as u8),
                    (e, false, (i % k) as u8),
                ]))
            },
        ));
        let mut bulk = vec![];
        for n in tier.pick(&[1u32, 10, 100, 1000, 20_000][..], &[1, 10, 100, 1000, 10_000, 100_000][..]) {
            for how in 0..6 {
                bulk.push(BCase::Bulk(*n, how));
            }
        }
        v.push(Fam::list("bulk", "many unrelated expressions built in between", bulk));
        v
    }
    fn text(&self, c: &BCase) -> String {
        match c {
            BCase::Seq(o) => {
                let n: Vec<&str> = o.iter().map(|x| NAMES[*x as usize]).collect();
                format!("seq {}", n.join(" "))
            }
            BCase::Terms(t) => {
                let t: Vec<String> = t.iter().map(|t| t.text()).collect();
                format!("terms {}", t.join(" ; "))
            }
            BCase::Bad(t, p, k) => format!("bad {p} {k} {}", t.text()),
            BCase::BadPat(s) => format!("pattern {}", hex(s.as_bytes())),
            BCase::Quotes(q) => {
                let q: Vec<String> = q.iter().map(|(e, n, o)| format!("{e}:{}:{o}", *n as u8)).collect();
                format!("quotes {}", q.join(" "))
            }
            BCase::Bulk(n, h) => format!("bulk {n} {h}"),
        }
    }
    fn parse(&self, s: &str) -> BCase {
        let (k, r) = s.split_once(' ').unwrap();
        match k {
            "seq" => BCase::Seq(
                r.split(' ').map(|x| NAMES.iter().position(|n| *n == x).unwrap() as u8).collect(),
            ),
            "terms" => BCase::Terms(r.split(" ; ").map(Term::parse).collect()),
            "bad" => {
                let mut i = r.splitn(3, ' ');
                let p = i.next().unwrap().parse().unwrap();
                let k = i.next().unwrap().parse().unwrap();
                BCase::Bad(Term::parse(i.next().unwrap()), p, k)
            }
            "quotes" => BCase::Quotes(
                r.split(' ')
                    .map(|x| {
                        let v: Vec<u8> = x.split(':').map(|n| n.parse().unwrap()).collect();
                        (v[0], v[1] != 0, v[2])
                    })
                    .collect(),
            ),
            "pattern" => BCase::BadPat(String::from_utf8(unhex(r)).unwrap()),
            _ => {
                let (n, h) = r.split_once(' ').unwrap();
                BCase::Bulk(n.parse().unwrap(), h.parse().unwrap())
            }
        }
    }
    fn run(&self, c: &BCase, sc: &mut Scratch, st: &mut Stats) -> Result<(), String> {
        match c {
            BCase::Seq(ops) => {
                let mut cur = World::new();
                let mut other: Option<World> = None;
                for (i, &op) in ops.iter().enumerate() {
                    if op == 17 {
                        let n = other.take().unwrap_or_else(|| cur.clone());
                        other = Some(std::mem::replace(&mut cur, n));
                        continue;
                    }
                    st.transitions += 1;
                    cur.op(op, sc, st).map_err(|m| format!("operation {i} ({}): {m}", NAMES[op as usize]))?;
                }
                cur.final_check(sc, st).map_err(|m| format!("at the end: {m}"))?;
                if let Some(mut o) = other {
                    o.final_check(sc, st).map_err(|m| format!("at the end, other builder: {m}"))?;
                }
                st.outcome(ops);
                Ok(())
            }
            BCase::Terms(ts) => {
                let mut b = RegexBuilder::new();
                let mut refs = vec![];
                for t in ts {
                    refs.push(b.mk(&t.to_ast()).map_err(|e| e.to_string())?);
                }
                let w = sc.refs.get_or_insert_with(Refs::new);
                let n = ts.len() - 1;
                against_ref(&b, refs[n], &ts[n], w, st)?;
                against_ref(&b, refs[0], &ts[0], w, st)?;
                // combined through references
                let both = b
                    .mk(&RegexAst::Or(vec![RegexAst::ExprRef(refs[n]), RegexAst::ExprRef(refs[0])]))
                    .map_err(|e| e.to_string())?;
                against_ref(&b, both, &Term::Or(vec![ts[n].clone(), ts[0].clone()]), w, st)?;
                for (t, r) in ts.iter().zip(&refs) {
                    let e = b.mk(&t.to_ast()).map_err(|e| e.to_string())?;
                    if e != *r {
                        return Err(format!("{} was reference {} and now is {}", t.text(), r.as_usize(), e.as_usize()));
                    }
                }
                Ok(())
            }
            BCase::Bad(t, pos, kind) => {
                let good = Term::Cat(vec![Term::Or(vec![lit("ab"), lit("a")]), Term::Not(Box::new(lit("b")))]);
                let mut b = RegexBuilder::new();
                let g1 = b.mk(&good.to_ast()).map_err(|e| e.to_string())?;
                let mut p = *pos as isize;
                let a = with_bad(t, &mut p, *kind);
                if b.mk(&a).is_ok() {
                    return Err(format!("malformed request accepted: {a:?}"));
                }
                let g2 = b.mk(&good.to_ast()).map_err(|e| e.to_string())?;
                if g1 != g2 {
                    return Err("a request repeated after a refused one gives another reference".into());
                }
                let w = sc.refs.get_or_insert_with(Refs::new);
                let e = b.mk(&t.to_ast()).map_err(|e| e.to_string())?;
                against_ref(&b, e, t, w, st)?;
                against_ref(&b, g1, &good, w, st)
            }
            BCase::BadPat(s) => {
                let good = Term::Cat(vec![Term::Or(vec![lit("ab"), lit("a")]), Term::Not(Box::new(lit("b")))]);
                let m = term_machine(&good)?;
                let mut b = RegexBuilder::new();
                let g1 = b.mk(&good.to_ast()).map_err(|e| e.to_string())?;
                let p = regex_syntax::Parser::new().parse(s);
                let r = b.mk_regex(s);
                match (&r, &p) {
                    (Ok(_), Err(_)) => return Err("a pattern with a syntax error is accepted".into()),
                    (Err(e), Ok(h)) => {
                        if from_hir(h).map_or(false, |p| !p.has_look()) {
                            return Err(format!("a well-formed pattern without assertions is refused: {e}"));
                        }
                    }
                    _ => {}
                }
                st.add(if r.is_ok() { "compiled" } else { "refused" }, 1);
                let r2 = b.mk(&RegexAst::Concat(vec![RegexAst::Regex(s.clone()), RegexAst::Literal("ab".into())]));
                if r.is_ok() != r2.is_ok() {
                    return Err("refused only as part of an expression".into());
                }
                if let Ok(e) = r {
                    if b.mk_regex(s).ok() != Some(e) {
                        return Err("the same pattern twice gives two references".into());
                    }
                }
                let g2 = b.mk(&good.to_ast()).map_err(|e| e.to_string())?;
                if g1 != g2 {
                    return Err("a repeated request gives another reference".into());
                }
                compare(&mut b.to_regex(g1), &m, st)
            }
            BCase::Quotes(q) => {
                let mut w = World::new();
                for (e, neg, o) in q {
                    w.ask(Rec::Pat(QUOTED[*e as usize], DEF), vec![], sc)?;
                    if *neg {
                        let l = w.last().unwrap();
                        w.ask(Rec::Ast(K::Not, vec![l.rec.clone()]), vec![l.e], sc)?;
                    }
                    let l = w.last().unwrap();
                    w.ask(Rec::Json(l.rec.clone(), 4 + o), vec![l.e], sc)?;
                    st.transitions += 1;
                }
                w.final_check(sc, st)
            }
            BCase::Bulk(n, how) => {
                let early: Vec<Term> = Pool::new(leaves_core(), uns_core(), BINS.to_vec(), 2).all();
                let mut b = RegexBuilder::new();
                let mut r = vec![];
                for t in &early {
                    r.push(b.mk(&t.to_ast()).map_err(|e| e.to_string())?);
                }
                for i in 0..*n {
                    let w = format!("{i:x}{}", "ab".repeat((i % 7) as usize));
                    let l = RegexAst::Literal(w.clone());
                    match how {
                        0 => drop(b.mk(&l).map_err(|e| e.to_string())?),
                        1 => drop(b.mk(&RegexAst::Not(Box::new(l))).map_err(|e| e.to_string())?),
                        2 => drop(b.mk_regex(&format!("{w}[a-f]{{{},{}}}", i % 11, i % 11 + 3)).map_err(|e| e.to_string())?),
                        3 => {
                            let e = b.mk(&RegexAst::Repeat(Box::new(l), 1, i + 2)).map_err(|e| e.to_string())?;
                            b.json_quote(e, &opts((i % 3) as u8)).map_err(|e| e.to_string())?;
                        }
                        4 => {
                            let x = RegexAst::And(vec![l, RegexAst::ByteSet(vec![0; (i % 8) as usize])]);
                            if b.mk(&x).is_ok() {
                                return Err("malformed request accepted".into());
                            }
                        }
                        _ => {
                            let k = r[i as usize % r.len()];
                            let e = b.mk(&RegexAst::Or(vec![l, RegexAst::ExprRef(k)])).map_err(|e| e.to_string())?;
                            if i % 37 == 0 {
                                let mut rx = b.to_regex(e);
                                if !rx.is_match(&w) {
                                    return Err(format!("{w:?} does not match itself"));
                                }
                            }
                        }
                    }
                }
                let w = sc.refs.get_or_insert_with(Refs::new);
                for (t, e) in early.iter().zip(&r) {
                    let again = b.mk(&t.to_ast()).map_err(|e| e.to_string())?;
                    if again != *e {
                        return Err(format!("{} was reference {} and now is {}", t.text(), e.as_usize(), again.as_usize()));
                    }
                }
                // compiling from a large builder copies it; check a spread of the early references
                let step = if *n > 1000 { 5 } else { 1 };
                for (t, e) in early.iter().zip(&r).step_by(step) {
                    against_ref(&b, *e, t, w, st)?;
                }
                Ok(())
            }
        }
    }
    fn rule(&self) -> String {
        "every sequence of builder operations (good and malformed requests, quoting, compiling, containment \
         queries, flag changes, cloning) up to the stated depth is executed on the real builder; afterwards every \
         request is repeated and every reference compiled and explored to a fixpoint against the automaton of the \
         same recipe in a builder that did nothing else; pairs, triples and bulk histories are compared with the \
         reference language".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "operation sequences longer than the stated depths are represented by the bulk histories only".into(),
            "expressions with a lookahead are compared on their first 400 states".into(),
        ]
    }
}
