//! Combining next-byte hints with `|` and `&`: the whole value table, and products of two or
//! three real matchers.

use crate::checks_lang::compile;
use crate::explore::*;
use crate::families::*;
use crate::lang::*;
use crate::run::*;
use crate::term::*;
use derivre::{NextByte, Regex, StateID};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone)]
pub enum HCase {
    /// one row of the value table: this value against all others (and all third values)
    Row(usize),
    /// matchers of these expressions walked together
    Walk(Vec<Term>, Option<Arc<Part>>),
}
use HCase::*;

pub struct Hints;

const N: usize = 259;
fn value(i: usize) -> NextByte {
    match i {
        0..=255 => NextByte::ForcedByte(i as u8),
        256 => NextByte::ForcedEOI,
        257 => NextByte::SomeBytes,
        _ => NextByte::Dead,
    }
}
/// what a hint leaves possible, as a bit set: 0..=255 bytes, 256 end of input
fn allows(h: NextByte) -> [bool; 257] {
    let mut r = [false; 257];
    match h {
        NextByte::ForcedByte(b) => r[b as usize] = true,
        NextByte::ForcedEOI => r[256] = true,
        NextByte::SomeBytes => r = [true; 257],
        NextByte::Dead => {}
    }
    r
}
/// the most precise hint that leaves this much possible
fn best(s: &[bool; 257]) -> NextByte {
    let v: Vec<usize> = (0..257).filter(|&i| s[i]).collect();
    match v[..] {
        [] => NextByte::Dead,
        [256] => NextByte::ForcedEOI,
        [b] => NextByte::ForcedByte(b as u8),
        _ => NextByte::SomeBytes,
    }
}
fn join(a: NextByte, b: NextByte) -> NextByte {
    let (x, y) = (allows(a), allows(b));
    best(&std::array::from_fn(|i| x[i] || y[i]))
}
fn meet(a: NextByte, b: NextByte) -> NextByte {
    let (x, y) = (allows(a), allows(b));
    best(&std::array::from_fn(|i| x[i] && y[i]))
}

fn row(i: usize, st: &mut Stats) -> Result<(), String> {
    let a = value(i);
    for j in 0..N {
        let b = value(j);
        let (o, n) = (a | b, a & b);
        if o != join(a, b) {
            return Err(format!("{a:?} | {b:?} = {o:?}, expected {:?}", join(a, b)));
        }
        if n != meet(a, b) {
            return Err(format!("{a:?} & {b:?} = {n:?}, expected {:?}", meet(a, b)));
        }
        for k in 0..N {
            let c = value(k);
            if (a | b) | c != a | (b | c) || (a & b) & c != a & (b & c) {
                return Err(format!("grouping matters for {a:?}, {b:?}, {c:?}"));
            }
            if a & (a | c) != a || a | (a & c) != a {
                return Err(format!("absorption fails for {a:?}, {c:?}"));
            }
        }
        st.states += 1;
        st.transitions += 2 + 4 * N as u64;
        st.outcome(&format!("{o:?} {n:?}"));
    }
    Ok(())
}

type St = Vec<StateID>;

fn walk(terms: &[Term], p: &Part, st: &mut Stats) -> Result<(), String> {
    let mut rx: Vec<Regex> = terms.iter().map(compile).collect::<Result<_, _>>()?;
    let bytes = p.reps1();
    let s0: St = rx.iter_mut().map(|r| r.initial_state()).collect();
    let mut index: HashMap<St, usize> = HashMap::from([(s0.clone(), 0)]);
    let mut nodes = vec![(s0, usize::MAX, 0u8)];
    let mut edges: Vec<Vec<usize>> = vec![];
    const CAP: usize = 1000;
    while edges.len() < nodes.len() {
        let s = nodes[edges.len()].0.clone();
        let mut out = vec![];
        for &b in &bytes {
            let t: St = s.iter().zip(&mut rx).map(|(&s, r)| r.transition(s, b)).collect();
            st.transitions += 1;
            let n = nodes.len();
            let at = edges.len();
            let k = *index.entry(t.clone()).or_insert(n);
            if k == n {
                nodes.push((t, at, b));
            }
            out.push(k);
        }
        edges.push(out);
        if nodes.len() > CAP {
            // what is known to be reachable so far still has to be allowed for
            st.capped += 1;
            break;
        }
    }
    let expanded = edges.len();
    edges.resize(nodes.len(), vec![]);
    // can all of them still accept the same continuation?
    let n = nodes.len();
    let acc_all: Vec<bool> = nodes
        .iter()
        .map(|x| x.0.iter().zip(&mut rx).all(|(&s, r)| r.is_accepting(s)))
        .collect();
    let acc_any: Vec<bool> = nodes
        .iter()
        .map(|x| x.0.iter().zip(&mut rx).any(|(&s, r)| r.is_accepting(s)))
        .collect();
    let back = |acc: &Vec<bool>| {
        let mut live = acc.clone();
        let mut rev: Vec<Vec<usize>> = vec![vec![]; n];
        for (i, e) in edges.iter().enumerate() {
            for &t in e {
                rev[t].push(i);
            }
        }
        let mut todo: Vec<usize> = (0..n).filter(|&i| live[i]).collect();
        while let Some(i) = todo.pop() {
            for &j in &rev[i] {
                if !live[j] {
                    live[j] = true;
                    todo.push(j);
                }
            }
        }
        live
    };
    let (live_all, live_any) = (back(&acc_all), back(&acc_any));
    for i in 0..expanded {
        let path = || {
            let mut v = vec![];
            let mut j = i;
            while nodes[j].1 != usize::MAX {
                v.push(nodes[j].2);
                j = nodes[j].1;
            }
            v.reverse();
            show_bytes(&v)
        };
        let h: Vec<NextByte> = nodes[i].0.iter().zip(&mut rx).map(|(&s, r)| r.next_byte(s)).collect();
        let mut u = h[0];
        let mut m = h[0];
        for &x in &h[1..] {
            u = u | x;
            m = m & x;
        }
        for (what, hint, acc, live) in [("union", u, &acc_any, &live_any), ("intersection", m, &acc_all, &live_all)] {
            let a = allows(hint);
            if acc[i] && !a[256] {
                return Err(format!("after {}: hints {h:?} combine to {hint:?} for the {what}, but it accepts", path()));
            }
            for (c, mem) in p.members.iter().enumerate() {
                // reps1 lists one byte per class, in class order
                if live[edges[i][c]] {
                    if let Some(&b) = mem.iter().find(|&&b| !a[b as usize]) {
                        return Err(format!(
                            "after {}: hints {h:?} combine to {hint:?} for the {what}, but byte {b:#x} can go on to a match",
                            path()
                        ));
                    }
                }
            }
        }
        // any order of combining gives the same
        if h.len() > 2 {
            let ur = h.iter().rev().skip(1).fold(h[h.len() - 1], |a, &b| b | a);
            let mr = h.iter().rev().skip(1).fold(h[h.len() - 1], |a, &b| b & a);
            if ur != u || mr != m {
                return Err(format!("after {}: hints {h:?} combine differently from the right", path()));
            }
        }
        st.outcome(&format!("{h:?} {u:?} {m:?}"));
    }
    st.states += n as u64;
    Ok(())
}

impl Check for Hints {
    type Case = HCase;
    type Scratch = ();
    fn id(&self) -> &'static str {
        "C24"
    }
    fn scratch(&self) {}
    fn families(&self, tier: Tier) -> Vec<Fam<HCase>> {
        let part = Arc::new(ab_part());
        let mut v = vec![];
        v.push(Fam::new("value-table", "all 259 hint values against all others, and every triple", N as u64, |i| {
            Some(Row(i as usize))
        }));
        let pool = Pool::new(leaves_full(), uns_full(), BINS.to_vec(), 3).all();
        let pool: Vec<Term> = match tier {
            Tier::Quick => pool,
            Tier::Thorough => {
                let mut p = pool;
                p.extend(Pool::new(leaves_core(), uns_core(), BINS.to_vec(), 4).all().into_iter().filter(|t| t.size() == 4));
                p
            }
        };
        let n = pool.len() as u64;
        let pt = part.clone();
        let pl = pool.clone();
        v.push(Fam::new("pairs", &format!("all unordered pairs of {n} expressions"), n * n, move |i| {
            let (a, b) = (i / n, i % n);
            (a <= b).then(|| Walk(vec![pl[a as usize].clone(), pl[b as usize].clone()], Some(pt.clone())))
        }));
        let small: Vec<Term> = Pool::new(leaves_full(), uns_core(), vec![], 2).all();
        let k = small.len() as u64;
        let pt = part.clone();
        v.push(Fam::new("triples", &format!("all ordered triples of {k} expressions"), k * k * k, move |i| {
            Some(Walk([i / k / k, i / k % k, i % k].iter().map(|&x| small[x as usize].clone()).collect(), Some(pt.clone())))
        }));
        // every forced byte against every other, end of input and free choice
        let mut l = vec![];
        for b in 0..=255u8 {
            for o in [0u8, 1, 0x0a, b'a', 0x7f, 0x80, 0xc3, 0xfe, 0xff, b ^ 1, b ^ 0x80, b ^ 0x20] {
                l.push(Walk(vec![Term::Lit(vec![b, o]), Term::Lit(vec![o, b])], None));
                l.push(Walk(vec![Term::Lit(vec![b]), rep(set(move |x| x != o), 0, 2)], None));
                l.push(Walk(vec![Term::Cat(vec![byte(b), not(byte(o))]), star(byte(b))], None));
            }
        }
        v.push(Fam::list("bytes", "every byte against twelve others in three shapes", l));
        // lookahead expressions take part as well
        let a = [Term::Eps, byte(b'a'), star(byte(b'a')), star(any()), rep(byte(b'b'), 0, 1)];
        let bs = [byte(b'b'), Term::Lit(b"ab".to_vec()), not(Term::None), Term::Cat(vec![star(byte(b'a')), byte(b'b')])];
        let mut las = vec![];
        for x in &a {
            for y in &bs {
                las.push(Term::Cat(vec![x.clone(), la(y.clone())]));
            }
        }
        let mut l = vec![];
        for x in &las {
            for y in las.iter().chain(a.iter()) {
                l.push(Walk(vec![x.clone(), y.clone()], Some(part.clone())));
            }
        }
        v.push(Fam::list("lookahead", "twenty lookahead expressions with each other and with plain ones (walks cut at 1000 joint states)", l));
        v
    }
    fn text(&self, c: &HCase) -> String {
        match c {
            Row(i) => format!("row {i}"),
            Walk(t, _) => format!("walk {}", t.iter().map(|t| t.text()).collect::<Vec<_>>().join(" ; ")),
        }
    }
    fn parse(&self, s: &str) -> HCase {
        match s.split_once(' ').unwrap() {
            ("row", i) => Row(i.parse().unwrap()),
            (_, r) => Walk(r.split(" ; ").map(Term::parse).collect(), None),
        }
    }
    fn run(&self, c: &HCase, _w: &mut (), st: &mut Stats) -> Result<(), String> {
        match c {
            Row(i) => row(*i, st),
            Walk(t, p) => {
                let own;
                let p = match p {
                    Some(p) => &**p,
                    None => {
                        let mut v = vec![];
                        t.iter().for_each(|t| t.sets(&mut v));
                        own = Part::from_sets(&v);
                        &own
                    }
                };
                walk(t, p, st)
            }
        }
    }
    fn rule(&self) -> String {
        "the complete value table of the two operators (pairs and triples), compared with the least hint covering the union / \
         intersection of what the operands leave possible; and for every listed tuple of expressions the joint state graph of the \
         real matchers is closed, what the union and the intersection can still do is computed by backward reachability, and the \
         combined hints are compared with it in every joint state"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the transitions and acceptance of the matchers themselves (checked by C01/C04)".into(),
            "one stepped byte per class of the expressions' own byte partition; hints are compared for all 256 bytes".into(),
        ]
    }
}
