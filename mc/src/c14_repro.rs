//! C14: the same steps in a fresh builder give the same observable results, although every
//! hash table is seeded anew.

use crate::c02_patterns::listed;
use crate::families::*;
use crate::lang::INF;
use crate::run::*;
use crate::term::*;
use crate::util::*;
use derivre::{JsonQuoteOptions, RegexAst, RegexBuilder, StateID};
use std::collections::HashMap;

#[derive(Clone)]
pub enum RCase {
    /// several expressions built one after the other
    Terms(Vec<Term>),
    Pat(String),
    /// the traces of a numbered block of expressions, in a process of its own, must have this
    /// fingerprint (0: compute it here and start the process)
    Block(u64, u64),
}

/// Everything observable about building and exploring, in order.
struct Log {
    v: Vec<String>,
}
impl Log {
    fn add(&mut self, k: &str, x: impl std::fmt::Display) {
        self.v.push(format!("{k} = {x}"));
    }
}

fn walk(b: &RegexBuilder, e: derivre::ExprRef, cap: usize, log: &mut Log) {
    for fuel in [0u64, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20, 30, 50, 100, 300, 1000, u64::MAX] {
        match b.to_regex_limited(e, fuel) {
            Ok(mut r) => {
                let s = r.initial_state();
                log.add(&format!("fuel {fuel}"), format!("ok {s:?} cost {}", r.cost()))
            }
            Err(x) => log.add(&format!("fuel {fuel}"), x),
        }
    }
    let mut rx = b.to_regex(e);
    log.add("compiled", format!("{rx:?}"));
    log.add("cost", rx.cost());
    log.add("bytes", rx.num_bytes());
    let classes: Vec<usize> = (0..=255u8).map(|x| rx.alpha().map(x)).collect();
    log.add("alphabet", format!("{} {:?}", rx.alpha().len(), classes));
    let inv: Vec<Option<u8>> = (0..rx.alpha().len()).map(|x| rx.alpha().inv_map(x)).collect();
    log.add("inverse", format!("{inv:?}"));
    let mut reps = vec![];
    for c in 0..rx.alpha().len() {
        reps.push(classes.iter().position(|x| *x == c).unwrap_or(0) as u8);
    }
    reps.dedup();
    let s0 = rx.initial_state();
    let mut seen: HashMap<StateID, ()> = HashMap::new();
    let mut todo = vec![s0];
    seen.insert(s0, ());
    let mut i = 0;
    while i < todo.len() && i < cap {
        let s = todo[i];
        let mut l = format!("accepts {} len {:?} hint {:?} ->", rx.is_accepting(s), rx.lookahead_len_for_state(s), rx.next_byte(s));
        for &b in &reps {
            let t = rx.transition(s, b);
            l.push_str(&format!(" {t:?}"));
            if seen.insert(t, ()).is_none() {
                todo.push(t);
            }
        }
        log.add(&format!("{s:?}"), l);
        i += 1;
    }
    log.add("after", format!("{rx:?} cost {} bytes {}", rx.cost(), rx.num_bytes()));
    if i == todo.len() && i < 60 {
        log.add("table", hex(&rx.dfa()));
        log.add("after export", format!("{rx:?}"));
    }
}

fn node(b: &RegexBuilder, e: derivre::ExprRef, log: &mut Log) {
    log.add("reference", e.as_usize());
    log.add("size", b.exprset().len());
    log.add("cost", b.exprset().cost());
    log.add("bytes", b.exprset().num_bytes());
    log.add("printed", b.exprset().expr_to_string_with_info(e));
    log.add("printed short", b.exprset().expr_to_string_max_len(e, 40));
}

fn trace(c: &RCase, cap: usize) -> Vec<String> {
    let mut log = Log { v: vec![] };
    let mut b = RegexBuilder::new();
    match c {
        RCase::Terms(ts) => {
            let mut last = Option::None;
            for t in ts {
                match b.mk(&t.to_ast()) {
                    Ok(e) => {
                        node(&b, e, &mut log);
                        walk(&b, e, cap, &mut log);
                        last = Some(e);
                    }
                    Err(x) => log.add("error", x),
                }
            }
            if let Some(e) = last {
                for o in [
                    JsonQuoteOptions::with_unicode(),
                    JsonQuoteOptions { allowed_escapes: "nrt\"".into(), raw_mode: false },
                ] {
                    match b.json_quote(e, &o) {
                        Ok(q) => {
                            node(&b, q, &mut log);
                            let r = b.to_regex(q);
                            log.add("quoted", format!("{r:?}"));
                        }
                        Err(x) => log.add("quote error", x),
                    }
                }
                let x = RegexAst::And(vec![RegexAst::ExprRef(e), RegexAst::Not(Box::new(ts[0].to_ast()))]);
                match b.mk(&x) {
                    Ok(e) => {
                        node(&b, e, &mut log);
                        walk(&b, e, cap / 2, &mut log);
                    }
                    Err(x) => log.add("error", x),
                }
            }
            log.add("end", b.exprset().len());
        }
        RCase::Pat(s) => {
            match b.mk_regex(s) {
                Ok(e) => {
                    node(&b, e, &mut log);
                    walk(&b, e, cap, &mut log);
                }
                Err(x) => log.add("error", x),
            }
            match derivre::Regex::new(s) {
                Ok(r) => log.add("direct", format!("{r:?} {}", r.cost())),
                Err(x) => log.add("direct error", x),
            }
            for f in [3u64, 30, 300, u64::MAX] {
                let r = b.is_contained_in(s, "[a-z]+", f);
                log.add(&format!("contained {f}"), match r {
                    Ok(x) => x.to_string(),
                    Err(e) => e.to_string(),
                });
            }
            b.case_insensitive(true);
            match b.mk_regex(s) {
                Ok(e) => node(&b, e, &mut log),
                Err(x) => log.add("error", x),
            }
        }
        RCase::Block(..) => unreachable!(),
    }
    log.v
}

fn block_terms() -> Vec<RCase> {
    let mut v: Vec<RCase> = Pool::new(leaves_core(), uns_core(), BINS.to_vec(), 3)
        .all()
        .into_iter()
        .map(|t| RCase::Terms(vec![t]))
        .collect();
    v.extend(listed().into_iter().map(|s| RCase::Pat(s.into())));
    v.extend(many().into_iter().map(|t| RCase::Terms(vec![t])));
    v
}
const BLOCK: u64 = 40;

fn fingerprint(i: u64) -> u64 {
    let v = block_terms();
    // FNV, so that it does not depend on any seed
    let mut h = 0xcbf29ce484222325u64;
    for c in v.iter().skip((i * BLOCK) as usize).take(BLOCK as usize) {
        for l in trace(c, 40) {
            for b in l.bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    h.max(1)
}

/// expressions with many distinct parts, where an unordered container would show
fn many() -> Vec<Term> {
    use Term::*;
    let w = |i: usize| format!("{}{}", ["ab", "cd", "ef", "ba", "xy"][i % 5], i);
    let mut v = vec![];
    for n in [2, 3, 5, 8, 13, 21, 40] {
        let lits: Vec<Term> = (0..n).map(|i| lit(&w(i))).collect();
        v.push(Or(lits.clone()));
        v.push(not(Or(lits.clone())));
        v.push(Or((0..n).map(|i| Cat(vec![set(|b| b as usize % 7 == i % 7), lit(&w(i))])).collect()));
        v.push(Or((0..n).map(|i| Cat(vec![lit(&w(i)), lit("tail")])).collect()));
        v.push(Or((0..n).map(|i| Cat(vec![lit(&w(i)), star(byte(i as u8))])).collect()));
        v.push(And((0..n).map(|i| not(Cat(vec![star(any()), lit(&w(i)), star(any())]))).collect()));
        v.push(Or((0..n).map(|i| set(|b| (b as usize * 3 + i) % (n + 1) == 0)).map(|s| Cat(vec![s, byte(b'!')])).collect()));
        v.push(Cat((0..n).map(|i| set(|b| (b as usize >> (i % 8)) & 1 == 1)).collect()));
        v.push(And((0..n).map(|i| rep(set(|b| b as usize != i), i as u32 % 3, INF)).collect()));
        v.push(Cat((0..n).map(|i| rep(lit(&w(i)), i as u32 % 4, i as u32 % 4 + 2)).collect()));
        v.push(rep(Or(lits.clone()), 2, 5));
        v.push(pre(Or(lits.clone())));
        v.push(Cat(vec![star(Or(lits.clone())), la(Or(lits))]));
    }
    v
}

pub struct Repro;

impl Check for Repro {
    type Case = RCase;
    type Scratch = ();
    fn id(&self) -> &'static str {
        "C14"
    }
    fn scratch(&self) {}
    fn families(&self, tier: Tier) -> Vec<Fam<RCase>> {
        let mut v = vec![];
        for f in term_families(tier.pick(3, 4), 5) {
            v.push(map_fam(f, |c| RCase::Terms(vec![c.term])));
        }
        for f in [shared_heads(Tier::Quick), width_sweep(Tier::Quick), class_mix(Tier::Quick), prefix_mix(Tier::Quick), alphabet_sweep(Tier::Quick)] {
            let step = tier.pick(if f.count > 4000 { f.count / 2000 } else { 1 }, if f.count > 60_000 { 3 } else { 1 });
            let get = f.get;
            v.push(Fam::new(&f.name, &format!("{}, every {step}th", f.note), f.count / step, move |i| {
                get(i * step).map(|c| RCase::Terms(vec![c.term]))
            }));
        }
        v.push(Fam::list("many-parts", "expressions with many distinct parts", many().into_iter().map(|t| RCase::Terms(vec![t])).collect()));
        v.push(Fam::list("patterns", "listed patterns", listed().into_iter().map(|s| RCase::Pat(s.into())).collect()));
        let small = Pool::new(leaves_core(), vec![Un::Not, Un::Pre, Un::Rep(0, INF), Un::Rep(1, 2)], BINS.to_vec(), 2).all();
        let n = small.len() as u64;
        v.push(Fam::new("pairs", "two expressions after each other in one builder", n * n, move |i| {
            Some(RCase::Terms(vec![small[(i / n) as usize].clone(), small[(i % n) as usize].clone()]))
        }));
        let nb = (block_terms().len() as u64).div_ceil(BLOCK);
        v.push(Fam::new("processes", "blocks of 40 expressions compared between two processes", nb, |i| Some(RCase::Block(i, 0))));
        v
    }
    fn text(&self, c: &RCase) -> String {
        match c {
            RCase::Terms(t) => {
                let t: Vec<String> = t.iter().map(|t| t.text()).collect();
                format!("terms {}", t.join(" ; "))
            }
            RCase::Pat(s) => format!("pattern {}", hex(s.as_bytes())),
            RCase::Block(i, h) => format!("block {i} {h}"),
        }
    }
    fn parse(&self, s: &str) -> RCase {
        let (k, r) = s.split_once(' ').unwrap();
        match k {
            "terms" => RCase::Terms(r.split(" ; ").map(Term::parse).collect()),
            "pattern" => RCase::Pat(String::from_utf8(unhex(r)).unwrap()),
            _ => {
                let (i, h) = r.split_once(' ').unwrap();
                RCase::Block(i.parse().unwrap(), h.parse().unwrap())
            }
        }
    }
    fn run(&self, c: &RCase, _w: &mut (), st: &mut Stats) -> Result<(), String> {
        if let RCase::Block(i, h) = c {
            let mine = fingerprint(*i);
            if *h != 0 {
                return if mine == *h { Ok(()) } else { Err(format!("results differ between processes ({mine:x}, {h:x})")) };
            }
            return in_child("C14", &format!("block {i} {mine}"), 60, st);
        }
        let a = trace(c, 60);
        st.states += a.len() as u64;
        st.transitions += 2 * a.len() as u64;
        st.outcome(&a);
        let b = trace(c, 60);
        let d = std::thread::scope(|s| s.spawn(|| guarded(|| trace(c, 60))).join().unwrap())?;
        for (what, o) in [("a second time", b), ("in another thread", d)] {
            if let Some(i) = (0..a.len().max(o.len())).find(|&i| a.get(i) != o.get(i)) {
                return Err(format!(
                    "the same steps {what}: observation {i} is {:?}, before {:?}",
                    o.get(i).map_or("missing", |x| x),
                    a.get(i).map_or("missing", |x| x)
                ));
            }
        }
        Ok(())
    }
    fn rule(&self) -> String {
        "every enumerated construction and complete exploration is executed three times (twice in one thread, once \
         in a new one; blocks also in another process), each time in fresh instances whose hash tables get their own \
         random seeds, and the full logs of observable results are compared line by line; states counts log lines"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the seeds of the hash tables cannot be enumerated; every case sees three to five different ones".into(),
        ]
    }
}
