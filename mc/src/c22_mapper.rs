//! C22: the tree-mapping utility visits every node once, children first.

use crate::run::*;
use derivre::map_ast;
use std::rc::Rc;

/// Tree node; `id` is its preorder number.
pub struct T {
    id: usize,
    kids: Vec<T>,
}

#[derive(Clone)]
pub enum TCase {
    /// preorder depth sequence of a tree, every single failing node
    Shape(Vec<u8>),
    /// the same, every set of failing nodes
    Sets(Vec<u8>),
    /// large regular shape: (kind, size, failing visit or 0)
    Big(u32, usize, usize),
    /// shared (Rc) graph: depth
    Shared(u32),
}

pub struct Mapper;

/// i-th preorder depth sequence, by enumeration
fn sequences(n: usize) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut cur = vec![0u8];
    fn go(n: usize, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for d in 1..=*cur.last().unwrap() + 1 {
            cur.push(d);
            go(n, cur, out);
            cur.pop();
        }
    }
    go(n, &mut cur, &mut out);
    out
}

fn tree(seq: &[u8]) -> T {
    fn go(seq: &[u8], i: &mut usize) -> T {
        let id = *i;
        let d = seq[id];
        *i += 1;
        let mut kids = vec![];
        while *i < seq.len() && seq[*i] == d + 1 {
            kids.push(go(seq, i));
        }
        T { id, kids }
    }
    let mut i = 0;
    go(seq, &mut i)
}

fn kids(t: &T) -> &[T] {
    &t.kids[..]
}

/// Result of a node: its number and a fingerprint of the children's results in order.
#[derive(Clone, PartialEq, Eq, Debug)]
struct R {
    id: usize,
    hash: u64,
}
fn combine(id: usize, kids: &[u64]) -> u64 {
    let mut h = (id as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15);
    for k in kids {
        h = (h ^ k).wrapping_mul(0x100000001b3).rotate_left(17);
    }
    h ^ kids.len() as u64
}

fn run_tree(t: &T, n: usize, fails: &dyn Fn(usize) -> bool, want: Option<u64>) -> Result<(), String> {
    let mut visited = vec![false; n];
    let mut order: Vec<usize> = vec![];
    let mut failed: Option<usize> = None;
    let mut complaint: Option<String> = None;
    // a traversal that loses its way must end, too
    let looks = std::cell::Cell::new(0usize);
    let limit = 100 * n + 10_000;
    let r = map_ast(
        t,
        |t| {
            looks.set(looks.get() + 1);
            assert!(looks.get() <= limit, "the children of {n} nodes were asked for {limit} times");
            kids(t)
        },
        |t, args: Vec<R>| {
            let mut say = |m: String| {
                if complaint.is_none() {
                    complaint = Some(m);
                }
            };
            if let Some(f) = failed {
                say(format!("node {} visited after node {f} had failed", t.id));
            }
            if visited[t.id] {
                say(format!("node {} visited twice", t.id));
            }
            visited[t.id] = true;
            order.push(t.id);
            if args.len() != t.kids.len() {
                say(format!("node {} got {} results for {} children", t.id, args.len(), t.kids.len()));
            } else {
                for (a, k) in args.iter().zip(&t.kids) {
                    if a.id != k.id {
                        say(format!("node {} got the result of {} in the place of {}", t.id, a.id, k.id));
                    }
                }
            }
            if fails(t.id) {
                failed = Some(t.id);
                anyhow::bail!("fail {}", t.id);
            }
            Ok(R { id: t.id, hash: combine(t.id, &args.iter().map(|a| a.hash).collect::<Vec<_>>()) })
        },
    );
    if let Some(m) = complaint {
        return Err(m);
    }
    match (r, failed) {
        (Ok(r), None) => {
            if r.id != t.id {
                return Err(format!("the result is that of node {}", r.id));
            }
            if order.len() != n {
                return Err(format!("{} of {n} nodes visited", order.len()));
            }
            if let Some(w) = want {
                if r.hash != w {
                    return Err("the root result does not combine all children in order".into());
                }
            }
        }
        (Err(e), Some(f)) => {
            if e.to_string() != format!("fail {f}") {
                return Err(format!("node {f} failed first, but the error returned is {e:?}"));
            }
        }
        (Ok(_), Some(f)) => return Err(format!("node {f} failed, but the result is Ok")),
        (Err(e), None) => return Err(format!("error {e} although nothing failed")),
    }
    Ok(())
}

fn direct(t: &T) -> u64 {
    combine(t.id, &t.kids.iter().map(direct).collect::<Vec<_>>())
}

const BIGS: [&str; 6] = ["chain", "star", "left comb", "right comb", "binary", "caterpillar"];
fn big(kind: u32, n: usize) -> (T, usize) {
    let leaf = |id| T { id, kids: vec![] };
    match kind {
        0 => {
            let mut t = leaf(n - 1);
            for i in (0..n - 1).rev() {
                t = T { id: i, kids: vec![t] };
            }
            (t, n)
        }
        1 => (T { id: 0, kids: (1..n).map(leaf).collect() }, n),
        2 => {
            // ids only have to be distinct
            let mut t = leaf(0);
            let mut id = 1;
            while id + 1 < n {
                t = T { id: id + 1, kids: vec![t, leaf(id)] };
                id += 2;
            }
            (t, id)
        }
        3 => {
            let mut t = leaf(0);
            let mut id = 1;
            while id + 1 < n {
                t = T { id: id + 1, kids: vec![leaf(id), t] };
                id += 2;
            }
            (t, id)
        }
        4 => {
            let mut v: Vec<T> = (0..n.next_power_of_two() / 2).map(leaf).collect();
            let mut id = v.len();
            while v.len() > 1 {
                let mut w = vec![];
                let mut it = v.into_iter();
                while let (Some(a), Some(b)) = (it.next(), it.next()) {
                    w.push(T { id, kids: vec![a, b] });
                    id += 1;
                }
                v = w;
            }
            (v.pop().unwrap(), id)
        }
        _ => {
            let mut t = leaf(0);
            let mut id = 1;
            while id + 4 < n {
                t = T { id: id + 4, kids: vec![leaf(id), leaf(id + 1), t, leaf(id + 2), leaf(id + 3)] };
                id += 5;
            }
            (t, id)
        }
    }
}
/// fingerprint without recursion
fn direct_big(t: &T) -> u64 {
    let mut post = vec![];
    let mut st = vec![t];
    while let Some(x) = st.pop() {
        post.push(x);
        st.extend(x.kids.iter());
    }
    let mut h: std::collections::HashMap<usize, u64> = Default::default();
    for x in post.iter().rev() {
        let k: Vec<u64> = x.kids.iter().map(|k| h[&k.id]).collect();
        h.insert(x.id, combine(x.id, &k));
    }
    h[&t.id]
}
fn drop_big(t: T) {
    let mut st = vec![t];
    while let Some(mut x) = st.pop() {
        st.append(&mut x.kids);
    }
}

impl Check for Mapper {
    type Case = TCase;
    type Scratch = ();
    fn id(&self) -> &'static str {
        "C22"
    }
    fn scratch(&self) {}
    fn families(&self, tier: Tier) -> Vec<Fam<TCase>> {
        let mut v = vec![];
        for n in 1..=tier.pick(13, 15) {
            v.push(Fam::list(
                &format!("shapes-{n}"),
                "every ordered tree with this many nodes, without failure and with each single node failing",
                sequences(n).into_iter().map(TCase::Shape).collect(),
            ));
        }
        for n in 1..=tier.pick(8, 10) {
            v.push(Fam::list(
                &format!("failing-sets-{n}"),
                "every ordered tree x every set of failing nodes",
                sequences(n).into_iter().map(TCase::Sets).collect(),
            ));
        }
        let mut b = vec![];
        for k in 0..BIGS.len() as u32 {
            for n in [2usize, 3, 64, 1000, 65535, 65536, 65537, 1_000_000] {
                for f in [0, 1, n / 2, n - 1] {
                    b.push(TCase::Big(k, n, f));
                }
            }
        }
        v.push(Fam::list("large", "chains, stars, combs, binary trees and caterpillars up to 1000000 nodes on a 2 MB stack", b));
        v.push(Fam::list("shared", "graphs with shared children: one visit per occurrence", (0..=16).map(TCase::Shared).collect()));
        v
    }
    fn text(&self, c: &TCase) -> String {
        let s = |v: &Vec<u8>| v.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(",");
        match c {
            TCase::Shape(v) => format!("shape {}", s(v)),
            TCase::Sets(v) => format!("sets {}", s(v)),
            TCase::Big(k, n, f) => format!("big {k} {n} {f}"),
            TCase::Shared(d) => format!("shared {d}"),
        }
    }
    fn parse(&self, s: &str) -> TCase {
        let (k, r) = s.split_once(' ').unwrap();
        let seq = || r.split(',').map(|x| x.parse().unwrap()).collect();
        match k {
            "shape" => TCase::Shape(seq()),
            "sets" => TCase::Sets(seq()),
            "shared" => TCase::Shared(r.parse().unwrap()),
            _ => {
                let v: Vec<usize> = r.split(' ').map(|x| x.parse().unwrap()).collect();
                TCase::Big(v[0] as u32, v[1], v[2])
            }
        }
    }
    fn run(&self, c: &TCase, _: &mut (), st: &mut Stats) -> Result<(), String> {
        match c {
            TCase::Shape(seq) => {
                let n = seq.len();
                let t = tree(seq);
                let w = direct(&t);
                run_tree(&t, n, &|_| false, Some(w))?;
                for f in 0..n {
                    run_tree(&t, n, &|x| x == f, None).map_err(|m| format!("node {f} failing: {m}"))?;
                }
                st.states += 1 + n as u64;
                st.transitions += (n * (n + 1)) as u64;
                st.outcome(&w);
                // results without contents
                let mut cnt = 0;
                map_ast(&t, |t| &t.kids[..], |t, a: Vec<()>| {
                    cnt += 1;
                    anyhow::ensure!(a.len() == t.kids.len(), "wrong number of results");
                    Ok(())
                })
                .map_err(|e| e.to_string())?;
                if cnt != n {
                    return Err(format!("{cnt} of {n} nodes visited with empty results"));
                }
            }
            TCase::Sets(seq) => {
                let n = seq.len();
                let t = tree(seq);
                for m in 0u32..1 << n {
                    run_tree(&t, n, &|x| m >> x & 1 != 0, None).map_err(|e| format!("failing set {m:#b}: {e}"))?;
                    st.states += 1;
                }
                st.transitions += (n as u64) << n;
            }
            TCase::Big(k, n, f) => {
                let (t, m) = big(*k, *n);
                let w = direct_big(&t);
                let r = on_small_stack(|| match *f {
                    0 => run_tree(&t, m, &|_| false, Some(w)),
                    f => run_tree(&t, m, &|x| x == f % m, None),
                });
                drop_big(t);
                r.map_err(|e| format!("{} of {m} nodes: {e}", BIGS[*k as usize]))?;
                st.states += 1;
                st.transitions += m as u64;
            }
            TCase::Shared(d) => {
                struct S {
                    kids: Vec<Rc<S>>,
                }
                let mut t = Rc::new(S { kids: vec![] });
                for _ in 0..*d {
                    t = Rc::new(S { kids: vec![t.clone(), t] });
                }
                let mut calls = 0u64;
                let r = map_ast(&t, |t| &t.kids[..], |t, a: Vec<u64>| {
                    calls += 1;
                    anyhow::ensure!(a.len() == t.kids.len(), "wrong number of results");
                    Ok(1 + a.iter().sum::<u64>())
                })
                .map_err(|e| e.to_string())?;
                let want = (1u64 << (d + 1)) - 1;
                if r != want || calls != want {
                    return Err(format!("depth {d}: {calls} calls, result {r}, expected {want}"));
                }
                st.states += 1;
                st.transitions += calls;
            }
        }
        Ok(())
    }
    fn rule(&self) -> String {
        "every ordered tree up to a number of nodes, with every single failing node (and every set of failing nodes up to \
         a smaller size); a monitor inside the callbacks checks each visit"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the utility is generic and does not inspect nodes, so tree shape and failing nodes are all it can depend on".into()]
    }
}
