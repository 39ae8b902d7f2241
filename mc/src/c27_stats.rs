//! Statistics and cost: the printed numbers against independent counts, under every
//! exploration order.

use crate::c03_lookahead::{la_families, LaCase};
use crate::families::*;
use crate::run::*;
use crate::term::*;
use derivre::{ExprRef, JsonQuoteOptions, Regex, RegexAst, RegexBuilder, StateID};
use std::collections::HashSet;

#[derive(Clone)]
pub enum SCase {
    /// the numbers of a compiled regex under one exploration order
    Walk { term: Term, order: u8 },
    /// the numbers of a builder along a sequence of operations (indices into `OPS`)
    Build(Vec<usize>),
}
use SCase::*;

enum Op {
    Pat(&'static str),
    Ast(fn(ExprRef) -> RegexAst),
    Inside(&'static str, &'static str),
    Quote(bool),
}
const OPS: &[(&str, Op)] = &[
    ("mk_regex word class", Op::Pat("\\w")),
    ("mk_regex letter class", Op::Pat("\\p{Greek}+")),
    ("mk_regex negated class", Op::Pat("[^a]")),
    ("mk_regex keywords", Op::Pat("foo|foobar|far|\\w")),
    ("mk_regex small", Op::Pat("a(b|c)*")),
    ("mk_regex lookahead", Op::Pat("a*(?P<stop>b)")),
    ("mk_regex invalid", Op::Pat("(a")),
    ("mk_regex unsupported", Op::Pat("x\\by")),
    ("mk Not(last)", Op::Ast(|e| RegexAst::Not(Box::new(RegexAst::ExprRef(e))))),
    ("mk And(last, pattern)", Op::Ast(|e| RegexAst::And(vec![RegexAst::ExprRef(e), RegexAst::Regex("[a-f]*".into())]))),
    ("mk Or(last, literal)", Op::Ast(|e| RegexAst::Or(vec![RegexAst::ExprRef(e), RegexAst::Literal("far out".into())]))),
    ("mk Repeat(last)", Op::Ast(|e| RegexAst::Repeat(Box::new(RegexAst::ExprRef(e)), 2, 5))),
    ("mk Prefixes(last)", Op::Ast(|e| RegexAst::Prefixes(Box::new(RegexAst::ExprRef(e))))),
    ("mk Concat with a bad repetition", Op::Ast(|e| RegexAst::Concat(vec![
        RegexAst::Literal("new".into()),
        RegexAst::Repeat(Box::new(RegexAst::ExprRef(e)), 3, 2),
    ]))),
    ("is_contained_in yes", Op::Inside("a+", "\\w*")),
    ("is_contained_in no", Op::Inside("\\w", "[a-z]")),
    ("json_quote", Op::Quote(false)),
    ("json_quote raw", Op::Quote(true)),
];

fn build(ops: &[usize], st: &mut Stats) -> Result<(), String> {
    let mut b = RegexBuilder::new();
    let mut last = b.mk(&RegexAst::Literal("seed".into())).unwrap();
    let numbers = |b: &RegexBuilder| (b.exprset().len(), b.exprset().num_bytes(), b.exprset().cost());
    let mut done: Vec<(RegexBuilder, (usize, usize, u64))> = vec![];
    for &o in ops {
        let (name, op) = &OPS[o];
        let before = numbers(&b);
        done.push((b.clone(), before));
        let once = |b: &mut RegexBuilder| -> Result<Option<ExprRef>, ()> {
            match op {
                Op::Pat(p) => b.mk_regex(p).map(Some).map_err(|_| ()),
                Op::Ast(f) => b.mk(&f(last)).map(Some).map_err(|_| ()),
                Op::Inside(x, y) => b.is_contained_in(x, y, u64::MAX).map(|_| None).map_err(|_| ()),
                Op::Quote(raw) => {
                    b.json_quote(last, &JsonQuoteOptions { allowed_escapes: "nrbtf\\\"u".into(), raw_mode: *raw }).map(Some).map_err(|_| ())
                }
            }
        };
        let r1 = once(&mut b);
        let mid = numbers(&b);
        // the same request once more
        let r2 = once(&mut b);
        let after = numbers(&b);
        st.transitions += 2;
        for (x, y, again) in [(before, mid, ""), (mid, after, " once more")] {
            if y.0 < x.0 || y.1 < x.1 || y.2 < x.2 {
                return Err(format!("{name}{again}: (expressions, bytes, cost) go from {x:?} to {y:?}"));
            }
        }
        if r1 != r2 {
            return Err(format!("{name}: the same request gives {r1:?}, then {r2:?}"));
        }
        if after.0 != mid.0 {
            return Err(format!("{name}: the same request once more adds {} expressions", after.0 - mid.0));
        }
        if let Ok(Some(e)) = r1 {
            last = e;
        }
        // compiling leaves the builder's numbers alone, and its own cost includes them
        let r = b.to_regex(last);
        if numbers(&b) != after {
            return Err(format!("{name}: compiling changes the builder's numbers from {after:?} to {:?}", numbers(&b)));
        }
        if r.cost() < after.2 {
            return Err(format!("{name}: the compiled regex costs {}, building it had cost {}", r.cost(), after.2));
        }
        st.outcome(&(o, r1.is_ok(), mid.0 - before.0));
    }
    // earlier copies kept theirs
    for (i, (c, n)) in done.iter().enumerate() {
        if numbers(c) != *n {
            return Err(format!("the copy made before operation {i} changed from {n:?} to {:?}", numbers(c)));
        }
    }
    st.states += ops.len() as u64 + 1;
    Ok(())
}

pub struct Numbers;

#[derive(Debug, Clone, PartialEq)]
struct Parsed {
    nodes: u64,
    derived: u64,
    derivs: u64,
    states: u64,
    transitions: u64,
    bytes: u64,
    alphabet: u64,
}
fn parse(s: &str) -> Result<Parsed, String> {
    let n: Vec<u64> = s
        .split(|c: char| !c.is_ascii_digit())
        .filter(|x| !x.is_empty())
        .map(|x| x.parse().map_err(|e| format!("unreadable statistics {s:?}: {e}")))
        .collect::<Result<_, _>>()?;
    match n[..] {
        [nodes, derived, derivs, states, transitions, bytes, alphabet] => {
            Ok(Parsed { nodes, derived, derivs, states, transitions, bytes, alphabet })
        }
        _ => Err(format!("unreadable statistics {s:?}")),
    }
}

struct Book {
    ids: HashSet<StateID>,
    steps: HashSet<(StateID, usize)>,
    last: Parsed,
    cost: u64,
    bytes: usize,
}

fn look(r: &Regex, k: &mut Book, what: &str) -> Result<(), String> {
    let p = parse(&r.stats())?;
    let e = |m: String| Err(format!("{what}: {m}"));
    if p.states != k.ids.len() as u64 + 2 {
        return e(format!("{} states reported, {} handed out (and two fixed ones)", p.states, k.ids.len()));
    }
    if p.transitions != k.steps.len() as u64 {
        return e(format!("{} transitions reported, {} distinct ones taken", p.transitions, k.steps.len()));
    }
    if p.alphabet != r.alpha().len() as u64 {
        return e(format!("alphabet size {} reported, {} in use", p.alphabet, r.alpha().len()));
    }
    if p.bytes != r.num_bytes() as u64 {
        return e(format!("{} bytes reported, num_bytes() = {}", p.bytes, r.num_bytes()));
    }
    if p.nodes != k.last.nodes {
        return e(format!("the number of compiled nodes changed from {} to {}", k.last.nodes, p.nodes));
    }
    if p.derived < k.last.derived || p.derivs < k.last.derivs {
        return e("the number of derived nodes or derivatives went down".into());
    }
    if r.cost() < k.cost {
        return e(format!("cost went down from {} to {}", k.cost, r.cost()));
    }
    if r.num_bytes() < k.bytes {
        return e(format!("num_bytes went down from {} to {}", k.bytes, r.num_bytes()));
    }
    k.last = p;
    k.cost = r.cost();
    k.bytes = r.num_bytes();
    Ok(())
}

impl Check for Numbers {
    type Case = SCase;
    type Scratch = ();
    fn id(&self) -> &'static str {
        "C27"
    }
    fn scratch(&self) {}
    fn families(&self, tier: Tier) -> Vec<Fam<SCase>> {
        let mut v = vec![];
        for f in term_families(4, tier.pick(4, 5)) {
            let get = f.get;
            v.push(Fam::new(&f.name, &format!("{}, three exploration orders", f.note), f.count * 3, move |i| {
                get(i / 3).map(|c| Walk { term: c.term, order: (i % 3) as u8 })
            }));
        }
        for f in [shared_heads(Tier::Quick), alphabet_sweep(Tier::Quick), repeat_sweep(Tier::Quick), byte_sweep(Tier::Quick)] {
            let get = f.get;
            v.push(Fam::new(&f.name, &f.note, f.count, move |i| {
                get(i).map(|c| Walk { term: c.term, order: (i % 3) as u8 })
            }));
        }
        for f in la_families(Tier::Quick) {
            let get = f.get;
            let step = tier.pick(2, 1);
            v.push(Fam::new(&f.name, &f.note, f.count / step, move |i| {
                get(i * step).map(|c: LaCase| Walk { term: c.term, order: (i % 3) as u8 })
            }));
        }
        // tens of thousands of states and steps
        let ab = || range(b'a', b'b');
        let tail = |n: u32| Term::Cat(vec![star(ab()), byte(b'a'), rep(ab(), n, n)]);
        let mut l = vec![tail(7), tail(10), tail(tier.pick(14, 15)), rep(byte(b'a'), 300, 300), rep(byte(b'a'), 0, 66_000), rep(Term::Lit(b"abc".to_vec()), 11_000, 11_000)];
        l.push(Term::Cat(vec![rep(ab(), 33_000, u32::MAX), byte(b'c')]));
        v.push(Fam::list("large", "automata of up to tens of thousands of states, explored to the end", l.into_iter().map(|term| Walk { term, order: 3 }).collect()));
        let (n, len) = (OPS.len() as u64, tier.pick(3, 4));
        v.push(Fam::new("builder", &format!("every sequence of {len} operations over {n} on one builder"), n.pow(len), move |i| {
            Some(Build((0..len).map(|k| (i / n.pow(k) % n) as usize).collect()))
        }));
        v
    }
    fn text(&self, c: &SCase) -> String {
        match c {
            Walk { term, order } => format!("{order} {}", term.text()),
            Build(v) => format!("build {}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
        }
    }
    fn parse(&self, s: &str) -> SCase {
        let (o, t) = s.split_once(' ').unwrap();
        if o == "build" {
            return Build(t.trim().split(',').map(|x| x.parse().unwrap()).collect());
        }
        Walk { order: o.parse().unwrap(), term: Term::parse(t) }
    }
    fn run(&self, c: &SCase, _w: &mut (), st: &mut Stats) -> Result<(), String> {
        let (term, order) = match c {
            Walk { term, order } => (term, *order),
            Build(v) => return build(v, st),
        };
        let mut b = RegexBuilder::new();
        let mut last = b.exprset().cost();
        let e = b.mk(&term.to_ast()).map_err(|e| format!("building failed: {e:#}"))?;
        if b.exprset().cost() < last {
            return Err("building lowered the cost".into());
        }
        last = b.exprset().cost();
        let (n, len) = (b.exprset().num_bytes(), b.exprset().len());
        if b.mk(&term.to_ast()).map_err(|e| format!("building again failed: {e:#}"))? != e {
            return Err("building again gives another expression".into());
        }
        if b.exprset().len() != len || b.exprset().num_bytes() < n || b.exprset().cost() < last {
            return Err(format!("building again changes the number of expressions from {len} to {}", b.exprset().len()));
        }
        let mut r = b.to_regex(e);
        if r.cost() < last {
            return Err(format!("the compiled regex costs {}, building it had cost {last}", r.cost()));
        }
        let s0 = r.initial_state();
        let mut k = Book {
            ids: HashSet::new(),
            steps: HashSet::new(),
            last: parse(&r.stats())?,
            cost: r.cost(),
            bytes: r.num_bytes(),
        };
        if !s0.is_dead() {
            k.ids.insert(s0);
        }
        look(&r, &mut k, "after compiling")?;
        let bytes = term.part().reps();
        let mut todo = std::collections::VecDeque::from([s0]);
        let mut seen = HashSet::from([s0]);
        let cap = if order == 3 { 1 << 20 } else { 250 };
        let mut late: Option<(Regex, Parsed, u64)> = None;
        while let Some(s) = match order {
            1 => todo.pop_back(),
            _ => todo.pop_front(),
        } {
            let reversed: Vec<u8>;
            let bs = if order == 2 {
                reversed = bytes.iter().rev().copied().collect();
                &reversed
            } else {
                &bytes
            };
            for &x in bs {
                let t = r.transition(s, x);
                if !s.is_dead() {
                    k.steps.insert((s, r.alpha().map(x)));
                }
                if !t.is_dead() {
                    k.ids.insert(t);
                }
                look(&r, &mut k, "after a step")?;
                // the same question again costs nothing and changes nothing
                let before = (r.stats(), r.cost());
                let t2 = r.transition(s, x);
                if t2 != t {
                    return Err("the same step leads elsewhere".into());
                }
                if (r.stats(), r.cost()) != before {
                    return Err(format!("repeating a step changes the numbers from {before:?} to {:?}", (r.stats(), r.cost())));
                }
                st.transitions += 1;
                if seen.len() < cap && seen.insert(t) {
                    todo.push_back(t);
                } else if !seen.contains(&t) {
                    st.capped += 1;
                    return Ok(());
                }
            }
            r.is_accepting(s);
            r.next_byte(s);
            r.lookahead_len_for_state(s);
            look(&r, &mut k, "after asking about a state")?;
            let before = (r.stats(), r.cost());
            r.is_accepting(s);
            r.next_byte(s);
            r.lookahead_len_for_state(s);
            if (r.stats(), r.cost()) != before {
                return Err("asking about a state again changes the numbers".into());
            }
            // a copy has the same numbers, and its later growth is its own
            if seen.len() == 2 && late.is_none() {
                let mut x = r.clone();
                if (x.stats(), x.cost()) != before {
                    return Err(format!("a copy reports {:?}, the original {before:?}", (x.stats(), x.cost())));
                }
                x.transition_bytes(s0, &bytes);
                x.transition_bytes(s0, b"abab");
                if (r.stats(), r.cost()) != before {
                    return Err("using a copy changes the numbers of the original".into());
                }
                late = Some((r.clone(), parse(&before.0)?, before.1));
            }
        }
        if let Some((x, p, cost)) = late {
            if parse(&x.stats())? != p || x.cost() != cost {
                return Err("using the original changes the numbers of a copy".into());
            }
        }
        // text matching goes through the same numbers
        r.lookahead_len_bytes(b"");
        look(&r, &mut k, "after an empty text")?;
        if !format!("{r:?}").contains(&r.stats()) {
            return Err(format!("the debug form {r:?} does not show the statistics {:?}", r.stats()));
        }
        st.states += k.ids.len() as u64 + 2;
        st.outcome(&(k.ids.len(), k.steps.len(), r.alpha().len()));
        Ok(())
    }
    fn rule(&self) -> String {
        "the reachable states of each expression are explored to a fixpoint in three orders; after every single query the printed \
         statistics, num_bytes and cost are compared with the counts kept by the check, and every query is repeated once; for builders, every operation sequence is run with every operation repeated, a compilation and a copy after each"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the seven numbers appear in the printed statistics in their present order; the words between them are free".into(),
            "expressions with more than 250 states are explored up to the 250th (counted as capped)".into(),
        ]
    }
}
