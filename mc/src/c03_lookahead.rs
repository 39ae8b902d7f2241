//! Lookahead: A followed by one final (?P<stop>B).  The matcher's states carry the number of
//! bytes since the split, so the space is explored to a depth bound (with merging).

use crate::explore::*;
use crate::families::*;
use crate::lang::*;
use crate::run::*;
use crate::term::*;
use derivre::{Regex, RegexBuilder};
use std::collections::HashMap;
use std::sync::Arc;

/// split a term into branches (A, B); the branches of a union are alternatives
pub fn split(t: &Term) -> Option<Vec<(Term, Term)>> {
    match t {
        Term::Rx(_, t) => split(t),
        Term::La(b) => Some(vec![(Term::Eps, (**b).clone())]),
        Term::Cat(v) => {
            let head = Term::Cat(v[..v.len() - 1].to_vec());
            let s = split(v.last()?)?;
            Some(s.into_iter().map(|(a, b)| (Term::Cat(vec![head.clone(), a]), b)).collect())
        }
        Term::Or(v) => {
            let mut r = vec![];
            for x in v {
                r.extend(split(x)?);
            }
            Some(r)
        }
        _ => None,
    }
}

/// like split, but a branch without lookahead counts as one followed by an empty lookahead
pub fn split_mixed(t: &Term) -> Vec<(Term, Term)> {
    match t {
        Term::Rx(_, t) => split_mixed(t),
        Term::La(b) => vec![(Term::Eps, (**b).clone())],
        Term::Cat(v) if v.last().map_or(false, has_la) => {
            let head = Term::Cat(v[..v.len() - 1].to_vec());
            split_mixed(&v[v.len() - 1]).into_iter().map(|(a, b)| (Term::Cat(vec![head.clone(), a]), b)).collect()
        }
        Term::Or(v) => v.iter().flat_map(split_mixed).collect(),
        t => vec![(t.clone(), Term::Eps)],
    }
}

pub fn has_la(t: &Term) -> bool {
    match t {
        Term::La(_) => true,
        Term::Rx(_, t) => has_la(t),
        Term::Cat(v) | Term::Or(v) => v.iter().any(has_la),
        _ => false,
    }
}

pub struct LaRef {
    pub parts: Vec<(Arc<Dfa>, Arc<Dfa>)>,
    /// union of A . minwords(B)
    pub whole: Arc<Dfa>,
}

/// (state in `whole`, per branch: state of A, sorted (state of B, least number of bytes read by it))
pub type RefState = (u32, Vec<(u32, Vec<(u32, u32)>)>);

impl LaRef {
    pub fn new(branches: &[(Term, Term)], l: &mut Langs, p: &Part) -> LaRef {
        let mut parts = vec![];
        let mut ws = vec![];
        for (a, b) in branches {
            let la = a.lang(l, p);
            let lb = b.lang(l, p);
            let m = l.minwords(lb);
            ws.push(l.cat(&[la, m]));
            parts.push((l.get(la).clone(), l.get(lb).clone()));
        }
        let w = if ws.len() == 1 { ws[0] } else { l.or(&ws) };
        LaRef { parts, whole: l.get(w).clone() }
    }
    pub fn init(&self) -> RefState {
        let v = self
            .parts
            .iter()
            .map(|(a, b)| (0, if a.acc[0] && b.live[0] { vec![(0, 0)] } else { vec![] }))
            .collect();
        (0, v)
    }
    pub fn step(&self, s: &RefState, c: usize) -> RefState {
        let v = self
            .parts
            .iter()
            .zip(&s.1)
            .map(|((a, b), (qa, splits))| {
                let qa = a.step(*qa, c);
                let mut m: Vec<(u32, u32)> = vec![];
                for &(q, n) in splits {
                    if b.acc[q as usize] {
                        continue; // the lookahead ends at its first match
                    }
                    let t = b.step(q, c);
                    if b.live[t as usize] {
                        m.push((t, n + 1));
                    }
                }
                if a.acc[qa as usize] && b.live[0] {
                    m.push((0, 0));
                }
                m.sort_unstable();
                m.dedup_by_key(|x| x.0);
                (qa, m)
            })
            .collect();
        (self.whole.step(s.0, c), v)
    }
    /// Is the reported length specified here?  Not when branches with and without a need for lookahead match together.
    pub fn specified(&self, s: &RefState) -> bool {
        let mut kinds = [false; 2];
        for ((_, b), (_, m)) in self.parts.iter().zip(&s.1) {
            if m.iter().any(|&(q, _)| b.acc[q as usize]) {
                kinds[b.acc[0] as usize] = true;
            }
        }
        self.parts.len() == 1 || kinds != [true, true]
    }
    pub fn len(&self, s: &RefState) -> Option<u32> {
        let mut r = None;
        for ((_, b), (_, m)) in self.parts.iter().zip(&s.1) {
            for &(q, n) in m {
                if b.acc[q as usize] && r.map_or(true, |x| n < x) {
                    r = Some(n);
                }
            }
        }
        r
    }
}

pub fn explore_la(
    rx: &mut Regex,
    r: &LaRef,
    p: &Part,
    bytes: &[u8],
    depth: usize,
    mon: &Mon,
    st: &mut Stats,
    cap: usize,
) -> Result<(), String> {
    if mon.dead && rx.always_empty() != r.whole.is_empty() {
        return Err(format!("always_empty() = {}", rx.always_empty()));
    }
    let mut nodes = vec![(rx.initial_state(), r.init(), usize::MAX, 0u8, 0usize)];
    let mut seen: HashMap<(u32, RefState), ()> = HashMap::new();
    seen.insert((nodes[0].0.as_u32(), nodes[0].1.clone()), ());
    let mut i = 0;
    while i < nodes.len() {
        let (s, q, _, _, d) = nodes[i].clone();
        let path = |nodes: &Vec<(derivre::StateID, RefState, usize, u8, usize)>| {
            let mut v = vec![];
            let mut j = i;
            while nodes[j].2 != usize::MAX {
                v.push(nodes[j].3);
                j = nodes[j].2;
            }
            v.reverse();
            show_bytes(&v)
        };
        let e = r.len(&q);
        assert!(e.is_some() == r.whole.acc[q.0 as usize], "reference disagrees with itself");
        if mon.len {
            let g = rx.lookahead_len_for_state(s);
            if r.specified(&q) && g != e.map(|x| x as usize) || g.is_some() != e.is_some() {
                return Err(format!(
                    "after reading {}: lookahead length {g:?}, expected {e:?}",
                    path(&nodes)
                ));
            }
        }
        let mut m2 = *mon;
        m2.len = false;
        if let Err(m) = check_state(rx, s, &r.whole, p, q.0, &m2) {
            return Err(format!("after reading {}: {m}", path(&nodes)));
        }
        if d < depth {
            for &b in bytes {
                let t = rx.transition(s, b);
                st.transitions += 1;
                let c = p.class_of[b as usize] as usize;
                let n = (t, r.step(&q, c), i, b, d + 1);
                if nodes.len() < cap {
                    if seen.insert((t.as_u32(), n.1.clone()), ()).is_none() {
                        nodes.push(n);
                    }
                } else {
                    st.capped += 1;
                    st.states += nodes.len() as u64;
                    return Ok(());
                }
            }
        }
        i += 1;
    }
    st.states += nodes.len() as u64;
    st.max("max_depth", nodes.last().unwrap().4 as u64);
    Ok(())
}

#[derive(Clone)]
pub struct LaCase {
    pub term: Term,
    pub depth: usize,
    /// restrict the bytes stepped (empty = one per class)
    pub bytes: Vec<u8>,
    /// non-empty: follow this single path (unit repeated n times, then tail), then check every answer
    pub path: Vec<(Vec<u8>, usize)>,
    pub part: Option<Arc<Part>>,
}

pub fn la_pairs(tier: Tier) -> Fam<LaCase> {
    let pool = match tier {
        Tier::Quick => Pool::new(leaves_core(), uns_core(), BINS.to_vec(), 3).all(),
        Tier::Thorough => Pool::new(leaves_full(), uns_full(), BINS.to_vec(), 3).all(),
    };
    let n = pool.len() as u64;
    let part = Arc::new(ab_part());
    let depth = tier.pick(8, 9);
    Fam::new(
        "lookahead-pairs",
        &format!("A(?P<stop>B) for all pairs of {n} small terms, all strings up to length {depth}"),
        n * n,
        move |i| {
            let (a, b) = (pool[(i / n) as usize].clone(), pool[(i % n) as usize].clone());
            Some(LaCase {
                term: Term::Cat(vec![a, la(b)]),
                depth,
                bytes: vec![],
                path: vec![],
                part: Some(part.clone()),
            })
        },
    )
}

/// unions of two lookahead expressions, bare and behind a common head
pub fn la_unions(tier: Tier) -> Fam<LaCase> {
    let (a, b) = (byte(b'a'), byte(b'b'));
    let mut heads = vec![Term::Eps, a.clone(), b.clone(), star(a.clone()), rep(a.clone(), 0, 1), star(range(b'a', b'b'))];
    let mut tails = vec![Term::Eps, a.clone(), b.clone(), Term::Lit(b"ab".to_vec()), star(b.clone()), rep(b.clone(), 1, INF), Term::Cat(vec![star(a.clone()), b.clone()])];
    let mut fronts = vec![None, Some(star(b.clone())), Some(star(range(b'a', b'b')))];
    if tier == Tier::Thorough {
        heads.extend([Term::Lit(b"ab".to_vec()), Term::Or(vec![a.clone(), Term::Lit(b"ab".to_vec())]), not(a.clone()), rep(a.clone(), 2, 2)]);
        tails.extend([Term::Lit(b"aab".to_vec()), Term::Or(vec![a.clone(), Term::Lit(b"bb".to_vec())]), any(), rep(range(b'a', b'b'), 2, 3), Term::Cat(vec![b.clone(), rep(a.clone(), 0, 1), b.clone()])]);
        fronts.extend([Some(rep(a.clone(), 1, 3)), Some(Term::Or(vec![b.clone(), Term::Lit(b"ba".to_vec())]))]);
    }
    let mut pool = vec![];
    for h in &heads {
        for t in &tails {
            pool.push(Term::Cat(vec![h.clone(), la(t.clone())]));
        }
    }
    let (n, f) = (pool.len() as u64, fronts.len() as u64);
    let part = Arc::new(ab_part());
    let depth = tier.pick(7, 8);
    Fam::new(
        "lookahead-unions",
        &format!("unions of two out of {n} lookahead expressions, behind {f} heads, all strings up to length {depth}"),
        n * n * f,
        move |i| {
            let or = Term::Or(vec![pool[(i / f / n) as usize].clone(), pool[(i / f % n) as usize].clone()]);
            Some(LaCase {
                term: match &fronts[(i % f) as usize] {
                    None => or,
                    Some(h) => Term::Cat(vec![h.clone(), or]),
                },
                depth,
                bytes: vec![],
                path: vec![],
                part: Some(part.clone()),
            })
        },
    )
}

/// unions of three lookahead expressions, and of lookahead expressions with expressions that have none
pub fn la_mixed(tier: Tier) -> Vec<Fam<LaCase>> {
    let (a, b) = (byte(b'a'), byte(b'b'));
    let ab = || range(b'a', b'b');
    let mut pool = vec![];
    for h in [Term::Eps, a.clone(), star(a.clone()), rep(ab(), 0, 1)] {
        for t in [Term::Eps, b.clone(), Term::Lit(b"ab".to_vec()), star(b.clone()), rep(b.clone(), 1, INF), Term::Or(vec![a.clone(), Term::Lit(b"bb".to_vec())])] {
            pool.push(Term::Cat(vec![h.clone(), la(t)]));
        }
    }
    let plain = Pool::new(leaves_core(), uns_core(), BINS.to_vec(), tier.pick(2, 3)).all();
    let depth = tier.pick(7, 8);
    let part = Arc::new(ab_part());
    let fronts: Vec<Option<Term>> = vec![None, Some(star(b.clone())), Some(rep(a.clone(), 0, 1))];
    let mk = move |or: Vec<Term>, front: &Option<Term>, part: &Arc<Part>| LaCase {
        term: match front {
            None => Term::Or(or),
            Some(h) => Term::Cat(vec![h.clone(), Term::Or(or)]),
        },
        depth,
        bytes: vec![],
        path: vec![],
        part: Some(part.clone()),
    };
    let (n, m, f) = (pool.len() as u64, plain.len() as u64, fronts.len() as u64);
    let (pool2, fronts2, part2) = (pool.clone(), fronts.clone(), part.clone());
    let small: Vec<Term> = plain.iter().take(tier.pick(12, 30)).cloned().collect();
    let (pool3, fronts3, part3) = (pool.clone(), fronts.clone(), part.clone());
    let k = small.len() as u64;
    vec![
        Fam::new(
            "lookahead-triples",
            &format!("unions of three out of {n} lookahead expressions, behind {f} heads, all strings up to length {depth}"),
            n * n * n * f,
            move |i| {
                let (x, y, z) = (i / f / n / n, i / f / n % n, i / f % n);
                Some(mk(vec![pool[x as usize].clone(), pool[y as usize].clone(), pool[z as usize].clone()], &fronts[(i % f) as usize], &part))
            },
        ),
        Fam::new(
            "lookahead-or-plain",
            &format!("unions of one of {n} lookahead expressions and one of {m} expressions without, in both orders, behind {f} heads, up to length {depth}"),
            n * m * f * 2,
            move |i| {
                let j = i / f / 2;
                let mut v = vec![pool2[(j / m) as usize].clone(), plain[(j % m) as usize].clone()];
                if i / f % 2 == 1 {
                    v.reverse();
                }
                Some(mk(v, &fronts2[(i % f) as usize], &part2))
            },
        ),
        Fam::new(
            "lookahead-pairs-or-plain",
            &format!("unions of two of {n} lookahead expressions and one of {k} expressions without, behind {f} heads, up to length {depth}"),
            n * n * k * f,
            move |i| {
                let j = i / f;
                let v = vec![pool3[(j / k / n) as usize].clone(), small[(j % k) as usize].clone(), pool3[(j / k % n) as usize].clone()];
                Some(mk(v, &fronts3[(i % f) as usize], &part3))
            },
        ),
    ]
}

fn bs(s: &str) -> Term {
    Term::Lit(s.as_bytes().to_vec())
}

pub fn la_patterns() -> Vec<(&'static str, Term)> {
    let a = || byte(b'a');
    let b = || byte(b'b');
    let x = || byte(b'x');
    let plus = |t: Term| rep(t, 1, INF);
    let opt = |t: Term| rep(t, 0, 1);
    let c = |v: Vec<Term>| Term::Cat(v);
    let o = |v: Vec<Term>| Term::Or(v);
    vec![
        ("a(?P<stop>b)", c(vec![a(), la(b())])),
        ("a(?P<stop>)", c(vec![a(), la(Term::Eps)])),
        ("a*(?P<stop>b*)", c(vec![star(a()), la(star(b()))])),
        ("a*(?P<stop>b+)", c(vec![star(a()), la(plus(b()))])),
        ("(?P<stop>ab)", la(bs("ab"))),
        ("a+(?P<stop>a)", c(vec![plus(a()), la(a())])),
        ("a+(?P<stop>aa)", c(vec![plus(a()), la(bs("aa"))])),
        ("[abx]*(?P<stop>a)", c(vec![star(o(vec![a(), b(), x()])), la(a())])),
        ("[abx]*(?P<stop>[xb]?a)", c(vec![star(o(vec![a(), b(), x()])), la(c(vec![opt(o(vec![x(), b()])), a()]))])),
        ("[abx]*(?P<stop>[xb][ab])", c(vec![star(o(vec![a(), b(), x()])), la(c(vec![o(vec![x(), b()]), o(vec![a(), b()])]))])),
        ("[ab]*(?P<stop>a|bb|bab)", c(vec![star(o(vec![a(), b()])), la(o(vec![a(), bs("bb"), bs("bab")]))])),
        ("(ab|a)(?P<stop>b|bb)", c(vec![o(vec![bs("ab"), a()]), la(o(vec![b(), bs("bb")]))])),
        ("(ab|a)(?P<stop>(b|bb)x)", c(vec![o(vec![bs("ab"), a()]), la(c(vec![o(vec![b(), bs("bb")]), x()]))])),
        ("(a|ab|abb)(?P<stop>b*x)", c(vec![o(vec![bs("ab"), a(), bs("abb")]), la(c(vec![star(b()), x()]))])),
        ("(?:a|ab|abb)(?P<stop>[ab]{2,3}x?b)$", c(vec![o(vec![bs("ab"), a(), bs("abb")]), la(c(vec![rep(o(vec![a(), b()]), 2, 3), opt(x()), b()]))])),
        ("a{3,5}(?P<stop>a{2})", c(vec![rep(a(), 3, 5), la(rep(a(), 2, 2))])),
        ("(aa)*(?P<stop>(aaa)+b)", c(vec![star(bs("aa")), la(c(vec![plus(bs("aaa")), b()]))])),
    ]
}

pub fn la_fixed(tier: Tier) -> Fam<LaCase> {
    let mut v = vec![];
    for (s, t) in la_patterns() {
        let rx = Term::Rx(s.to_string(), Box::new(t));
        v.push(LaCase { term: rx.clone(), depth: tier.pick(9, 12), bytes: vec![], path: vec![], part: None });
        v.push(LaCase { term: rx.clone(), depth: tier.pick(12, 15), bytes: b"abx".to_vec(), path: vec![], part: None });
        v.push(LaCase { term: rx.clone(), depth: 40, bytes: b"ab".to_vec(), path: vec![], part: None });
        v.push(LaCase { term: rx.clone(), depth: 600, bytes: b"a".to_vec(), path: vec![], part: None });
    }
    // long lookaheads: every reported length up to past 2^16
    let c = Term::Cat;
    for n in [255usize, 256, 257, 65535, 65536, 65537, 70000, 140000] {
        for t in [
            c(vec![byte(b'x'), la(c(vec![star(byte(b'a')), byte(b'b')]))]),
            c(vec![star(byte(b'x')), la(c(vec![star(range(b'a', b'a')), byte(b'b')]))]),
        ] {
            v.push(LaCase {
                term: t,
                depth: 0,
                bytes: vec![],
                path: vec![(b"x".to_vec(), 1), (b"a".to_vec(), n), (b"b".to_vec(), 1), (b"b".to_vec(), 1)],
                part: None,
            });
        }
        if n <= 70000 {
            v.push(LaCase {
                term: c(vec![star(range(b'a', b'b')), la(c(vec![byte(b'b'), rep(byte(b'a'), 300, INF), byte(b'x')]))]),
                depth: 0,
                bytes: vec![],
                path: vec![(b"b".to_vec(), 2), (b"a".to_vec(), n), (b"x".to_vec(), 1)],
                part: None,
            });
        }
    }
    // an early and a late entry point whose remainders become equal, at all kinds of distances
    let any = || set(|b| b"abxy".contains(&b));
    for n in (250..=262).chain(65530..=65540).chain([70000, 131070, 131072, 131075]) {
        for j in [1u32, 2, 5, 9] {
            let tail = || c(vec![star(any()), byte(b'b')]);
            let early = la(tail());
            let late = c(vec![star(byte(b'a')), byte(b'y'), la(c(vec![rep(byte(b'x'), j, j), star(any()), byte(b'b')]))]);
            for t in [Term::Or(vec![early.clone(), late.clone()]), Term::Or(vec![late, early])] {
                v.push(LaCase {
                    term: t,
                    depth: 0,
                    bytes: vec![],
                    path: vec![(b"a".to_vec(), n), (b"y".to_vec(), 1), (b"x".to_vec(), j as usize + 2), (b"b".to_vec(), 1)],
                    part: None,
                });
            }
        }
    }
    Fam::list("lookahead-fixed", "lookahead patterns, deep exploration, and linear paths with lengths past 2^17", v)
}

/// unions of many lookahead expressions: many entry points pending at once, each at its own
/// distance or each with its own continuation, with a special one first, in the middle and last
pub fn la_wide(tier: Tier) -> Fam<LaCase> {
    let c = Term::Cat;
    let an = |n: usize| Term::Lit(vec![b'a'; n]);
    let mut v = vec![];
    let mut put = |l: Vec<Term>, bytes: Vec<u8>, depth: usize| {
        for rev in [false, true] {
            let mut l = l.clone();
            if rev {
                l.reverse();
            }
            v.push(LaCase { term: Term::Or(l), depth, bytes: bytes.clone(), path: vec![], part: None });
        }
    };
    let ns: &[usize] = tier.pick(&[5, 8, 9, 15, 16, 17, 18, 31, 32, 33, 40, 63, 64, 65, 90][..], &[5, 8, 9, 12, 15, 16, 17, 18, 24, 31, 32, 33, 40, 48, 63, 64, 65, 90, 120, 127, 128, 129][..]);
    for &n in ns {
        // one symbol per branch
        let sym = |i: usize| (0x80 + i as u8 % 0x7e) as u8;
        let few = |more: &[u8]| {
            let mut b = vec![sym(0), sym(1), sym(n / 2), sym(n - 1)];
            b.extend_from_slice(more);
            b
        };
        // heads of n different lengths, each waiting for its own symbol
        put(
            (0..n).map(|i| c(vec![an(n - i), la(c(vec![star(byte(b'a')), byte(sym(i))]))])).collect(),
            few(b"a"),
            n + 4,
        );
        // one head, one continuation per branch, and the lookahead without any
        for at in [0, n / 2, n] {
            let mut l: Vec<Term> =
                (0..n).map(|i| c(vec![bs("xyx"), la(c(vec![bs("ab"), rep(byte(sym(i)), 3, 4)]))])).collect();
            l.insert(at, c(vec![bs("xyx"), la(bs("ab"))]));
            put(l, few(b"abxy"), 9);
        }
        // branches without a lookahead around one with
        for at in [0, n / 2, n] {
            let mut l: Vec<Term> = (0..n).map(|i| c(vec![byte(sym(i)), star(byte(b'a')), byte(sym(i))])).collect();
            l.insert(at, c(vec![star(byte(b'a')), la(c(vec![byte(b'x'), star(byte(b'a')), byte(b'y')]))]));
            put(l, few(b"axy"), 7);
        }
        // entry points at every position, n continuations
        put(
            (0..n).map(|i| c(vec![star(byte(b'a')), la(c(vec![byte(b'b'), rep(byte(b'a'), 0, 1), byte(sym(i))]))])).collect(),
            few(b"ab"),
            8,
        );
        // heads of n different lengths before the same thing
        put(
            (0..n).map(|i| c(vec![rep(byte(b'a'), i as u32, i as u32 + 1), la(c(vec![byte(b'b'), an(i % 3), byte(b'x')]))])).collect(),
            b"abx".to_vec(),
            n + 4,
        );
    }
    Fam::list("lookahead-wide", "unions of up to 129 lookahead expressions", v)
}

pub struct LaCheck {
    pub id: &'static str,
    pub mon: Mon,
}

impl LaCase {
    pub fn text(&self) -> String {
        let p: Vec<String> = self
            .path
            .iter()
            .map(|(b, n)| format!("{}*{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>(), n))
            .collect();
        format!(
            "{} {} [{}] {}",
            self.depth,
            self.bytes.iter().map(|x| format!("{x:02x}")).collect::<String>() + ".",
            p.join(","),
            self.term.text()
        )
    }
    pub fn parse(s: &str) -> LaCase {
        let unhex = |s: &str| -> Vec<u8> {
            (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
        };
        let mut it = s.splitn(4, ' ');
        let depth = it.next().unwrap().parse().unwrap();
        let bytes = unhex(it.next().unwrap().trim_end_matches('.'));
        let p = it.next().unwrap().trim_matches(|c| c == '[' || c == ']').to_string();
        let path = p
            .split(',')
            .filter(|x| !x.is_empty())
            .map(|x| {
                let (a, b) = x.split_once('*').unwrap();
                (unhex(a), b.parse().unwrap())
            })
            .collect();
        LaCase { term: Term::parse(it.next().unwrap()), depth, bytes, path, part: None }
    }
}

pub fn run_la(c: &LaCase, w: &mut Refs, st: &mut Stats, mon: &Mon) -> Result<(), String> {
    let own;
    let p = match &c.part {
        Some(p) => &**p,
        None => {
            own = c.term.part();
            &own
        }
    };
    let branches = split_mixed(&c.term);
    let r = LaRef::new(&branches, w.langs(p), p);
    let ast = c.term.to_ast();
    let mut bld = RegexBuilder::new();
    let e = bld.mk(&ast).map_err(|e| format!("building failed: {e}"))?;
    let mut rx = bld.to_regex(e);
    if !c.path.is_empty() {
        let mut s = rx.initial_state();
        let mut q = r.init();
        let mut text = vec![];
        for (unit, n) in &c.path {
            for _ in 0..*n {
                for &b in unit {
                    s = rx.transition(s, b);
                    q = r.step(&q, p.class_of[b as usize] as usize);
                    text.push(b);
                    let e = r.len(&q).map(|x| x as usize);
                    let g = rx.lookahead_len_for_state(s);
                    st.states += 1;
                    st.transitions += 1;
                    if mon.len && r.specified(&q) && g != e {
                        return Err(format!("after {} bytes: length {g:?}, expected {e:?}", text.len()));
                    }
                    if mon.dead && s.is_dead() == r.whole.live[q.0 as usize] {
                        return Err(format!("after {} bytes: dead = {}", text.len(), s.is_dead()));
                    }
                }
            }
            let e = r.len(&q).map(|x| x as usize);
            if mon.len && r.specified(&q) && (rx.lookahead_len_bytes(&text) != e || rx.is_match_bytes(&text) != e.is_some()) {
                return Err(format!("whole-string answer differs after {} bytes", text.len()));
            }
        }
        return Ok(());
    }
    let bytes = if c.bytes.is_empty() { p.reps1() } else { c.bytes.clone() };
    explore_la(&mut rx, &r, p, &bytes, c.depth, mon, st, 60_000)?;
    if c.depth <= 12 {
        // the same after walking long words first, so that nodes are made in another order
        let mut rx = bld.to_regex(e);
        for i in 0..bytes.len() {
            for k in [1, 2, 5] {
                let word: Vec<u8> = (0..c.depth + 3).map(|j| bytes[(i + j / k) % bytes.len()]).collect();
                rx.lookahead_len_bytes(&word);
            }
        }
        explore_la(&mut rx, &r, p, &bytes, c.depth, mon, st, 60_000)?;
    }
    st.outcome(&(&r.whole.trans, &r.whole.acc));
    Ok(())
}

pub enum AnyCase {
    La(LaCase),
    Plain(LCase),
    /// lookaheads along long periodic texts
    Steady(Term),
}

pub fn la_families(tier: Tier) -> Vec<Fam<LaCase>> {
    let mut v = vec![la_fixed(tier), la_wide(tier), la_pairs(tier), la_unions(tier)];
    v.extend(la_mixed(tier));
    v
}

impl Check for LaCheck {
    type Case = AnyCase;
    type Scratch = Refs;
    fn id(&self) -> &'static str {
        self.id
    }
    fn scratch(&self) -> Refs {
        Refs::new()
    }
    fn families(&self, tier: Tier) -> Vec<Fam<AnyCase>> {
        let mut v: Vec<Fam<AnyCase>> = vec![];
        for f in la_families(tier) {
            let get = f.get;
            v.push(Fam::new(&f.name, &f.note, f.count, move |i| get(i).map(AnyCase::La)));
        }
        for f in term_families(tier.pick(4, 5), 4) {
            let get = f.get;
            v.push(Fam::new(&f.name, &f.note, f.count, move |i| get(i).map(AnyCase::Plain)));
        }
        v
    }
    fn text(&self, c: &AnyCase) -> String {
        match c {
            AnyCase::La(c) => format!("la {}", c.text()),
            AnyCase::Plain(c) => format!("plain {}", c.term.text()),
            AnyCase::Steady(t) => format!("steady {}", t.text()),
        }
    }
    fn parse(&self, s: &str) -> AnyCase {
        match s.split_once(' ').unwrap() {
            ("la", r) => AnyCase::La(LaCase::parse(r)),
            ("steady", r) => AnyCase::Steady(Term::parse(r)),
            (_, r) => AnyCase::Plain(LCase::of(Term::parse(r))),
        }
    }
    fn run(&self, c: &AnyCase, w: &mut Refs, st: &mut Stats) -> Result<(), String> {
        match c {
            AnyCase::La(c) => run_la(c, w, st, &self.mon),
            AnyCase::Steady(t) => crate::checks_lang::steady(t, st),
            AnyCase::Plain(c) => {
                let own;
                let p = match &c.part {
                    Some(p) => &**p,
                    None => {
                        own = c.term.part();
                        &own
                    }
                };
                let l = w.langs(p);
                let id = c.term.lang(l, p);
                let d = l.get(id).clone();
                let mut rx = crate::checks_lang::compile(&c.term)?;
                let x = explore(&mut rx, &d, p, &Opts { bytes: Bytes::Reps1, mon: self.mon, cap: 60_000 })?;
                x.record(st);
                Ok(())
            }
        }
    }
    fn rule(&self) -> String {
        "lookahead expressions A(?P<stop>B), all pairs of small A and B plus fixed patterns; the product of the real \
         matcher with a reference that tracks, for every split point still alive, the state of B and the bytes since \
         the split, explored to a depth bound with merging of equal pairs; lookahead-free terms to a fixpoint"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["reference automata as for C01; strings longer than the depth bound are covered only where the state space closes or on the listed long paths".into()]
    }
}
