//! The memoising map over the expression graph: what is visited, in which order, with which
//! results, for every small expression and every set of answers already in the cache.

use derivre::raw::ExprSet;
use derivre::{ExprRef, RegexBuilder};
use mc::families::*;
use mc::run::*;
use mc::term::*;
use std::collections::{HashMap, HashSet};

#[derive(Clone)]
pub enum MCase {
    Graph(Term),
    /// (shape, size)
    Big(u8, usize),
}
use MCase::*;

pub struct GraphMap;

/// nodes reachable from r; with `cut`, a concatenation is followed only up to its first
/// non-nullable element
fn args(es: &ExprSet, r: ExprRef, cut: bool) -> Vec<ExprRef> {
    let a = es.get_args(r).to_vec();
    if !cut || format!("{:?}", es.get_tag(r)) != "Concat" {
        return a;
    }
    let n = a.iter().position(|&x| !es.is_nullable(x)).map_or(a.len(), |k| k + 1);
    a[..n].to_vec()
}
fn reach(es: &ExprSet, r: ExprRef, cut: bool, stop: &HashSet<ExprRef>) -> Vec<ExprRef> {
    let mut seen = HashSet::new();
    let mut out = vec![];
    let mut todo = vec![r];
    while let Some(x) = todo.pop() {
        if stop.contains(&x) || !seen.insert(x) {
            continue;
        }
        out.push(x);
        todo.extend(args(es, x, cut));
    }
    out
}

/// the value computed for a node: the node and the values of its arguments, hashed
fn combine(r: ExprRef, v: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ (r.as_u32() as u64).wrapping_mul(0x9E3779B97F4A7C15);
    for &x in v {
        h = (h ^ x).wrapping_mul(0x100000001b3).rotate_left(17);
    }
    h
}

struct Trace {
    visits: Vec<(ExprRef, Vec<u64>)>,
}

fn verify(
    es: &ExprSet,
    root: ExprRef,
    cut: bool,
    given: &HashMap<ExprRef, u64>,
    t: &Trace,
    result: u64,
    cache: Option<&HashMap<(ExprRef, u8), u64>>,
) -> Result<(), String> {
    let mut val = given.clone();
    let mut order = HashSet::new();
    for (r, v) in &t.visits {
        if given.contains_key(r) {
            return Err(format!("node {} visited although its answer was known", r.as_u32()));
        }
        if !order.insert(*r) {
            return Err(format!("node {} visited twice", r.as_u32()));
        }
        let mut want = vec![];
        for a in args(es, *r, cut) {
            match val.get(&a) {
                Some(x) => want.push(*x),
                None => return Err(format!("node {} visited before its argument {}", r.as_u32(), a.as_u32())),
            }
        }
        if want != *v {
            return Err(format!(
                "node {} received {} results, not those of its {} arguments in order",
                r.as_u32(),
                v.len(),
                want.len()
            ));
        }
        val.insert(*r, combine(*r, v));
    }
    let stop: HashSet<ExprRef> = given.keys().copied().collect();
    for x in reach(es, root, cut, &stop) {
        if !order.remove(&x) {
            return Err(format!("node {} was not visited", x.as_u32()));
        }
    }
    if let Some(x) = order.iter().next() {
        return Err(format!("node {} visited without need", x.as_u32()));
    }
    if val[&root] != result {
        return Err("the result is not the root's".into());
    }
    if let Some(c) = cache {
        let got: HashMap<ExprRef, u64> = c.iter().filter(|(k, _)| k.1 == 7).map(|(k, v)| (k.0, *v)).collect();
        if got != val {
            return Err(format!("the cache holds {} answers, expected {}", got.len(), val.len()));
        }
        if c.iter().any(|(k, v)| k.1 != 7 && *v != 99) {
            return Err("answers stored under other keys were changed".into());
        }
    }
    Ok(())
}

fn graph(es: &ExprSet, root: ExprRef, max_pre: usize, st: &mut Stats) -> Result<(), String> {
    let nodes = reach(es, root, false, &HashSet::new());
    let len0 = es.len();
    // simple_map, leaving the set alone and growing it meanwhile
    for grow in [false, true] {
        let mut x = es.clone();
        let mut t = Trace { visits: vec![] };
        let res = x.simple_map(root, |es, v: Vec<u64>, r| {
            if grow {
                let s: String = format!("grow{}", t.visits.len());
                let l = es.mk_literal(&s);
                let n = es.mk_not(r);
                es.mk_or(vec![l, n]);
            }
            let h = combine(r, &v);
            t.visits.push((r, v));
            h
        });
        verify(es, root, false, &HashMap::new(), &t, res, None).map_err(|m| format!("simple_map: {m}"))?;
        if !grow && x.len() != len0 {
            return Err("mapping changed the expression set".into());
        }
        st.transitions += t.visits.len() as u64;
    }
    // map with every set of answers already known, with and without the concatenation cut
    let k = nodes.len().min(max_pre);
    // the arguments of the root answered in other patterns: the first half, the second, every other one, all
    let wide = es.get_args(root).len();
    let extra = if wide > 6 && wide < 3000 { 5 } else { 0 };
    for cut in [false, true] {
        for mask in 0..(1u32 << k) + extra {
            let given: HashMap<ExprRef, u64> = match mask.checked_sub(1 << k) {
                None => (0..k).filter(|i| mask >> i & 1 == 1).map(|i| nodes[i]).collect::<Vec<_>>(),
                Some(x) => es.get_args(root).iter().enumerate().filter(|(i, _)| match x {
                    0 => *i < wide / 2,
                    1 => *i >= wide / 2,
                    2 => i % 2 == 0,
                    3 => i % 2 == 1,
                    _ => true,
                }).map(|x| *x.1).collect(),
            }.into_iter().map(|r| (r, 1000 + r.as_u32() as u64)).collect();
            let mut x = es.clone();
            let mut t = Trace { visits: vec![] };
            let mut cache: HashMap<(ExprRef, u8), u64> = given.iter().map(|(r, v)| ((*r, 7), *v)).collect();
            // answers for the same nodes under another key must not be used
            for r in &nodes {
                cache.insert((*r, 8), 99);
            }
            let res = x.map(root, &mut cache, cut, |r| (r, 7u8), |_, v: Vec<u64>, r| {
                let h = combine(r, &v);
                t.visits.push((r, v));
                h
            });
            verify(es, root, cut, &given, &t, res, Some(&cache))
                .map_err(|m| format!("map (concatenation cut {cut}, {} answers known): {m}", given.len()))?;
            st.transitions += t.visits.len() as u64;
            // a second time everything is known
            let mut n = 0;
            let again = x.map(root, &mut cache, cut, |r| (r, 7u8), |_, _, _| {
                n += 1;
                0
            });
            if again != res || n != 0 {
                return Err(format!("mapping again visits {n} nodes"));
            }
            st.states += 1;
        }
    }
    st.outcome(&(nodes.len(), combine(root, &[])));
    Ok(())
}

fn big(shape: u8, n: usize, es: &mut ExprSet) -> ExprRef {
    let a = es.mk_byte(b'a');
    let b = es.mk_byte(b'b');
    match shape {
        // a chain of complements of concatenations
        0 => {
            let mut e = a;
            for _ in 0..n {
                let c = es.mk_concat(vec![b, e]);
                e = es.mk_not(c);
            }
            e
        }
        // every level uses the previous one twice
        1 => {
            let mut e = a;
            for _ in 0..n {
                let c = es.mk_concat(vec![e, b, e]);
                e = es.mk_not(c);
            }
            e
        }
        // one very wide concatenation of different nullable pieces, then more of them
        2 => {
            let mut v = vec![];
            for i in 0..n {
                let s = es.mk_literal(&format!("{i}"));
                v.push(es.mk_repeat(s, 0, 1));
            }
            es.mk_concat(v)
        }
        // wide intersection of complements sharing one node
        3 => {
            let mut v = vec![];
            for i in 0..n {
                let s = es.mk_literal(&format!("{i}"));
                let c = es.mk_concat(vec![s, a, b]);
                v.push(es.mk_not(c));
            }
            es.mk_and(v)
        }
        // wide concatenations with one piece that is not nullable (first, in the middle, last), or none such
        5..=8 => {
            let mut v = vec![];
            for i in 0..n {
                let s = es.mk_literal(&format!("{i}"));
                let c = es.mk_concat(vec![s, b]);
                let here = match shape {
                    5 => i == 0,
                    6 => i == n / 2,
                    7 => i + 1 == n,
                    _ => true,
                };
                v.push(if here { es.mk_repeat(c, 2, 3) } else { es.mk_repeat(c, 0, 1) });
            }
            es.mk_concat(v)
        }
        // wide alternation
        9 => {
            let mut v = vec![];
            for i in 0..n {
                let s = es.mk_literal(&format!("{i}"));
                let c = es.mk_concat(vec![b, s, a]);
                v.push(es.mk_not(c));
            }
            let all = es.mk_and(v.clone());
            let v: Vec<ExprRef> = v.into_iter().map(|x| es.mk_concat(vec![a, x])).collect();
            let o = es.mk_or(v);
            es.mk_concat(vec![all, o])
        }
        // nested repetitions and prefixes
        _ => {
            let mut e = a;
            for i in 0..n {
                let c = es.mk_concat(vec![e, b]);
                let o = es.mk_not(c);
                e = es.mk_repeat(o, 2 + (i % 3) as u32, 9);
            }
            e
        }
    }
}

impl Check for GraphMap {
    type Case = MCase;
    type Scratch = ();
    fn id(&self) -> &'static str {
        "C26"
    }
    fn scratch(&self) {}
    fn families(&self, tier: Tier) -> Vec<Fam<MCase>> {
        let mut v = vec![];
        for f in term_families(4, tier.pick(4, 5)) {
            let get = f.get;
            v.push(Fam::new(&f.name, &f.note, f.count, move |i| get(i).map(|c| Graph(c.term))));
        }
        let f = shared_heads(Tier::Quick);
        let get = f.get;
        v.push(Fam::new(&f.name, &f.note, f.count, move |i| get(i).map(|c| Graph(c.term))));
        // wide concatenations of nullable and other pieces in all arrangements
        let p = [byte(b'a'), star(byte(b'a')), rep(byte(b'b'), 0, 1), not(byte(b'b')), not(star(any())), Term::Or(vec![Term::Eps, Term::Lit(b"ab".to_vec())])];
        let n = p.len() as u64;
        for k in 2..=tier.pick(5, 6) {
            let p = p.clone();
            v.push(Fam::new(&format!("concat-{k}"), "every arrangement of six nullable and other pieces", n.pow(k), move |i| {
                let mut i = i;
                let mut v = vec![];
                for _ in 0..k {
                    v.push(p[(i % n) as usize].clone());
                    i /= n;
                }
                Some(Graph(Term::Cat(v)))
            }));
        }
        let mut l = vec![];
        for shape in 0..5u8 {
            for n in (1..40usize).chain([60, 63, 64, 65, 100, 1000, 20_000, tier.pick(100_000, 400_000)]) {
                if !(shape == 3 && n > 1000) {
                    l.push(Big(shape, n));
                }
            }
        }
        for shape in [2u8, 3, 5, 6, 7, 8, 9] {
            for n in (1..40usize).chain([63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, tier.pick(1500, 2100)]) {
                l.push(Big(shape, n));
            }
        }
        v.push(Fam::list("big", "deep, wide and exponentially shared graphs", l));
        v
    }
    fn text(&self, c: &MCase) -> String {
        match c {
            Graph(t) => format!("graph {}", t.text()),
            Big(s, n) => format!("big {s} {n}"),
        }
    }
    fn parse(&self, s: &str) -> MCase {
        let (k, r) = s.split_once(' ').unwrap();
        match k {
            "graph" => Graph(Term::parse(r)),
            _ => {
                let (a, b) = r.split_once(' ').unwrap();
                Big(a.parse().unwrap(), b.parse().unwrap())
            }
        }
    }
    fn run(&self, c: &MCase, _w: &mut (), st: &mut Stats) -> Result<(), String> {
        let mut b = RegexBuilder::new();
        match c {
            Graph(t) => {
                let e = b.mk(&t.to_ast()).map_err(|e| format!("building failed: {e:#}"))?;
                graph(b.exprset(), e, 6, st)
            }
            Big(s, n) => {
                let mut es = ExprSet::new(256);
                let e = big(*s, *n, &mut es);
                graph(&es, e, if *n > 100 { 1 } else { 3 }, st)
            }
        }
    }
    fn rule(&self) -> String {
        "for each expression, simple_map and map are run with a recording function, for every subset of the (first six) nodes \
         already answered in the cache, with and without the concatenation cut; visits, argument results, their order, the \
         result and the cache are compared with the graph read through get_args"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the graph is read through get_args, get_tag and is_nullable (which C21 and C23 check)".into()]
    }
}
