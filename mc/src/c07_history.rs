//! C07: answers of a compiled regex do not depend on what was asked before, nor on cloning.
//!
//! The real Regex is driven through every sequence of operations up to a depth.  Every answer
//! is compared with a table built from instances that were asked nothing else, and at the end
//! of every sequence the whole automaton is walked again from every state identifier handed
//! out so far.

use crate::checks_lang::compile;
use crate::explore::*;
use crate::families::*;
use crate::lang::*;
use crate::run::*;
use crate::term::*;
use crate::util::*;
use derivre::{NextByte, Regex, StateID};
use std::collections::HashMap;
use std::sync::Arc;

type Out = (bool, bool, Option<usize>, NextByte);

/// What a matcher answers, as a function of the bytes read only.
pub struct Canon {
    rx: Regex,
    out: Vec<Out>,
    trans: Vec<u32>,
    bytes: Vec<u8>,
    closed: bool,
    empty: bool,
}
const UNK: u32 = u32::MAX;

fn observe(rx: &mut Regex, s: StateID) -> Out {
    (s.is_dead(), rx.is_accepting(s), rx.lookahead_len_for_state(s), rx.next_byte(s))
}

fn has_la(t: &Term) -> bool {
    match t {
        Term::La(_) => true,
        Term::Cat(v) | Term::Or(v) | Term::And(v) => v.iter().any(has_la),
        Term::Not(t) | Term::Pre(t) | Term::Rep(t, _, _) | Term::Rx(_, t) => has_la(t),
        _ => false,
    }
}

/// (instance, state it is in) after reading `w` and nothing else
fn fresh(pristine: &Regex, w: &[u8]) -> (Regex, StateID) {
    let mut rx = pristine.clone();
    let mut s = rx.initial_state();
    for &b in w {
        s = rx.transition(s, b);
    }
    (rx, s)
}

impl Canon {
    fn new(t: &Term, cap: usize, w: &mut Refs) -> Result<Canon, String> {
        let p = t.part();
        let bytes = p.reps1();
        let pristine = compile(t)?;
        // walk once; states are told apart by this instance's own identifiers
        let mut rx = compile(t)?;
        let mut ids: HashMap<StateID, u32> = HashMap::new();
        let s0 = rx.initial_state();
        ids.insert(s0, 0);
        let mut states = vec![s0];
        let mut trans: Vec<u32> = vec![];
        let mut i = 0;
        let mut closed = true;
        while i < states.len() {
            if states.len() > cap {
                closed = false;
                trans.resize(states.len() * bytes.len(), UNK);
                break;
            }
            for &b in &bytes {
                let t = rx.transition(states[i], b);
                let n = states.len() as u32;
                let id = *ids.entry(t).or_insert_with(|| {
                    states.push(t);
                    n
                });
                trans.push(id);
            }
            i += 1;
        }
        let mut out = vec![];
        for &s in &states {
            out.push(observe(&mut rx, s));
        }
        let c = Canon { empty: compile(t)?.always_empty(), rx: pristine, out, trans, bytes, closed };
        // the table itself is right (lookahead-free expressions)
        if !has_la(t) {
            let case = LCase::of(t.clone());
            with_ref(&case, w, |d, p| {
                let mut rx = compile(t)?;
                explore(&mut rx, d, p, &Opts { bytes: Bytes::Reps1, mon: MON_ALL, cap: 1_000_000 })
                    .map(|_| ())
            })?;
        }
        Ok(c)
    }
    fn step(&self, q: u32, b: u8) -> u32 {
        if q == UNK {
            return UNK;
        }
        let j = self.bytes.iter().position(|&x| x == b).unwrap();
        self.trans[q as usize * self.bytes.len() + j]
    }
}

/// A matcher under test, with what it has promised so far.
struct Inst {
    rx: Regex,
    /// handles in the order they were obtained, and the state of the table they stand for
    handles: Vec<(StateID, u32)>,
    cur: usize,
    steps: HashMap<(StateID, u8), StateID>,
}

impl Inst {
    fn new(rx: Regex) -> Inst {
        let mut i = Inst {
            rx,
            handles: vec![],
            cur: 0,
            steps: HashMap::new(),
        };
        let s = i.rx.initial_state();
        i.handles.push((s, 0));
        i
    }
    fn dup(&self) -> Inst {
        Inst {
            rx: self.rx.clone(),
            handles: self.handles.clone(),
            cur: self.cur,
            steps: self.steps.clone(),
        }
    }
    fn step(&mut self, h: usize, b: u8, c: &Canon) -> Result<(), String> {
        let (s, q) = self.handles[h];
        let t = self.rx.transition(s, b);
        if let Some(&o) = self.steps.get(&(s, b)) {
            if o != t {
                return Err(format!("{s:?} --{b:#x}--> was {o:?}, now {t:?}"));
            }
        }
        self.steps.insert((s, b), t);
        let qt = c.step(q, b);
        if qt != UNK && c.out[qt as usize].0 != t.is_dead() {
            return Err(format!("{s:?} --{b:#x}--> {t:?}: dead={}, expected {}", t.is_dead(), !t.is_dead()));
        }
        self.handles.push((t, qt));
        self.cur = self.handles.len() - 1;
        Ok(())
    }
    fn word(&mut self, w: &[u8], c: &Canon, strm: bool) -> Result<(), String> {
        let mut q = 0;
        for &b in w {
            q = c.step(q, b);
        }
        if q == UNK {
            return Ok(());
        }
        let e = c.out[q as usize];
        let (m, l) = if strm {
            let s = std::str::from_utf8(w).unwrap();
            (self.rx.is_match(s), self.rx.lookahead_len(s))
        } else {
            (self.rx.is_match_bytes(w), self.rx.lookahead_len_bytes(w))
        };
        if (m, l) != (e.1, e.2) {
            return Err(format!("matching {}: ({m}, {l:?}), expected ({}, {:?})", show_bytes(w), e.1, e.2));
        }
        Ok(())
    }
    /// everything obtained so far still means the same, and so does everything reachable from it
    fn final_check(&mut self, c: &Canon, st: &mut Stats) -> Result<(), String> {
        if self.rx.initial_state() != self.handles[0].0 {
            return Err("initial_state() changed".into());
        }
        if self.rx.always_empty() != c.empty {
            return Err("always_empty() changed".into());
        }
        let steps: Vec<_> = self.steps.iter().map(|(k, v)| (*k, *v)).collect();
        for ((s, b), t) in steps {
            let n = self.rx.transition(s, b);
            if n != t {
                return Err(format!("{s:?} --{b:#x}--> was {t:?}, at the end {n:?}"));
            }
        }
        let mut seen: FastMap<u64, ()> = Default::default();
        let key = |s: StateID, q: u32| ((s.as_u32() as u64) << 32) | q as u64;
        let mut todo: Vec<(StateID, u32)> = vec![];
        for &(s, q) in &self.handles {
            if q != UNK && seen.insert(key(s, q), ()).is_none() {
                todo.push((s, q));
            }
        }
        while let Some((s, q)) = todo.pop() {
            st.states += 1;
            let o = observe(&mut self.rx, s);
            if o != c.out[q as usize] {
                return Err(format!(
                    "{s:?} now answers (dead, accepts, lookahead, hint) = {o:?}, without history {:?}",
                    c.out[q as usize]
                ));
            }
            for (j, &b) in c.bytes.iter().enumerate() {
                let qt = c.trans[q as usize * c.bytes.len() + j];
                if qt == UNK {
                    continue;
                }
                let t = self.rx.transition(s, b);
                st.transitions += 1;
                if seen.insert(key(t, qt), ()).is_none() {
                    todo.push((t, qt));
                }
            }
        }
        Ok(())
    }
    fn dfa(&mut self, c: &Canon) -> Result<(), String> {
        let t = self.rx.dfa();
        let s0 = self.rx.initial_state().as_u32() as u8;
        let k = self.rx.alpha().len();
        let mut seen: HashMap<(u8, u32), ()> = HashMap::new();
        let mut todo = vec![(s0, 0u32)];
        seen.insert(todo[0], ());
        while let Some((s, q)) = todo.pop() {
            if q == UNK {
                continue;
            }
            if (s == 0) != c.out[q as usize].0 {
                return Err(format!("exported table: state {s} dead={}", s == 0));
            }
            for &b in &c.bytes {
                let n = t[256 + s as usize * k + t[b as usize] as usize];
                let x = (n, c.step(q, b));
                if seen.insert(x, ()).is_none() {
                    todo.push(x);
                }
            }
        }
        Ok(())
    }
}

pub const NOPS: u64 = 15;
const OP_NAMES: [&str; NOPS as usize] = [
    "step0", "step1", "step2", "step-init", "accepting", "hint", "lookahead", "hint-init",
    "match", "match2", "dfa", "switch-clone", "older", "stats", "replace-by-clone",
];

fn run_ops(c: &Canon, ops: &[u8], st: &mut Stats) -> Result<(), String> {
    let mut cur = Inst::new(c.rx.clone());
    let mut other: Option<Inst> = None;
    let b = |i: usize| c.bytes[i.min(c.bytes.len() - 1)];
    let ascii: Vec<u8> = c.bytes.iter().copied().filter(|x| *x < 128).collect();
    let a = |i: usize| if ascii.is_empty() { b(i) } else { ascii[i % ascii.len()] };
    let words: [Vec<u8>; 4] =
        [vec![a(0), a(1), a(0)], vec![a(1)], vec![b(1), b(1), b(0), b(2), b(1), b(0)], vec![]];
    for (k, &op) in ops.iter().enumerate() {
        let ctx = |m: String| format!("operation {k} ({}): {m}", OP_NAMES[op as usize]);
        let h = cur.cur;
        let (s, q) = cur.handles[h];
        let exp = if q == UNK { None } else { Some(c.out[q as usize]) };
        st.transitions += 1;
        match op {
            0..=2 => cur.step(h, b(op as usize), c).map_err(ctx)?,
            3 => cur.step(0, b(k % 3), c).map_err(ctx)?,
            4 => {
                let g = cur.rx.is_accepting(s);
                if exp.map_or(false, |e| e.1 != g) {
                    return Err(ctx(format!("{s:?}: {g}")));
                }
            }
            5 => {
                let g = cur.rx.next_byte(s);
                if exp.map_or(false, |e| e.3 != g) {
                    return Err(ctx(format!("{s:?}: {g:?}, without history {:?}", exp.unwrap().3)));
                }
            }
            6 => {
                let g = cur.rx.lookahead_len_for_state(s);
                if exp.map_or(false, |e| e.2 != g) {
                    return Err(ctx(format!("{s:?}: {g:?}, without history {:?}", exp.unwrap().2)));
                }
            }
            7 => {
                let s = cur.rx.initial_state();
                let g = cur.rx.next_byte(s);
                if c.out[0].3 != g {
                    return Err(ctx(format!("{g:?}, without history {:?}", c.out[0].3)));
                }
            }
            8 => {
                cur.word(&words[0], c, !ascii.is_empty()).map_err(ctx)?;
                cur.word(&words[1], c, !ascii.is_empty()).map_err(ctx)?;
            }
            9 => {
                cur.word(&words[2], c, false).map_err(ctx)?;
                cur.word(&words[3], c, false).map_err(ctx)?;
            }
            10 => {
                if c.closed && c.out.len() < 200 {
                    cur.dfa(c).map_err(ctx)?
                }
            }
            11 => {
                let n = match other.take() {
                    Some(o) => o,
                    None => cur.dup(),
                };
                other = Some(std::mem::replace(&mut cur, n));
            }
            12 => cur.cur = h.saturating_sub(1),
            13 => {
                let e = (cur.rx.stats(), cur.rx.cost(), cur.rx.num_bytes());
                let f = (cur.rx.stats(), cur.rx.cost(), cur.rx.num_bytes());
                if e != f || cur.rx.always_empty() != c.empty {
                    return Err(ctx(format!("{e:?} then {f:?}")));
                }
            }
            14 => cur = cur.dup(),
            _ => unreachable!(),
        }
    }
    cur.final_check(c, st).map_err(|m| format!("after the sequence: {m}"))?;
    if let Some(mut o) = other {
        o.final_check(c, st).map_err(|m| format!("after the sequence, other instance: {m}"))?;
    }
    Ok(())
}

/// complete walks in a chosen order
fn run_order(c: &Canon, perm: &[usize], mode: u64, st: &mut Stats) -> Result<(), String> {
    let dfs = mode % 2 == 1;
    let ask = mode / 2 % 3;
    let cl = mode / 6 % 3;
    let mut inst = Inst::new(c.rx.clone());
    let mut seen: FastMap<u64, ()> = Default::default();
    let key = |s: StateID, q: u32| ((s.as_u32() as u64) << 32) | q as u64;
    let mut todo = std::collections::VecDeque::new();
    todo.push_back((inst.handles[0].0, 0u32));
    seen.insert(key(inst.handles[0].0, 0), ());
    let mut n = 0usize;
    let mut kept: Option<Regex> = None;
    let half = c.out.len() / 2;
    let mut visited = vec![];
    while let Some((s, q)) = if dfs { todo.pop_back() } else { todo.pop_front() } {
        n += 1;
        if cl > 0 && n == half {
            let k = inst.rx.clone();
            kept = Some(if cl == 1 { k } else { std::mem::replace(&mut inst.rx, k) });
        }
        visited.push((s, q));
        if ask == 1 {
            let o = observe(&mut inst.rx, s);
            if o != c.out[q as usize] {
                return Err(format!("{s:?} answers {o:?}, without history {:?}", c.out[q as usize]));
            }
        }
        for &j in perm {
            let qt = c.trans[q as usize * c.bytes.len() + j];
            if qt == UNK {
                continue;
            }
            let t = inst.rx.transition(s, c.bytes[j]);
            st.transitions += 1;
            if seen.insert(key(t, qt), ()).is_none() {
                todo.push_back((t, qt));
            }
        }
        if ask == 2 {
            let o = inst.rx.next_byte(s);
            if o != c.out[q as usize].3 {
                return Err(format!("{s:?}: hint {o:?}, without history {:?}", c.out[q as usize].3));
            }
        }
    }
    st.states += visited.len() as u64;
    // identifiers handed out along the way still mean the same
    for &(s, q) in &visited {
        let o = observe(&mut inst.rx, s);
        if o != c.out[q as usize] {
            return Err(format!("at the end {s:?} answers {o:?}, without history {:?}", c.out[q as usize]));
        }
    }
    if let Some(rx) = kept {
        // the other copy only ever saw the first half
        let mut o = Inst::new(rx);
        o.handles = visited[..half.max(1)].to_vec();
        o.final_check(c, st).map_err(|m| format!("copy made half way: {m}"))?;
    }
    Ok(())
}

/// every word on its own, in an instance that read nothing else, and compiled from scratch
fn run_fresh(c: &Canon, t: &Term, depth: usize, st: &mut Stats) -> Result<(), String> {
    let k = c.bytes.len();
    for len in 0..=depth {
        for mut i in 0..(k as u64).pow(len as u32) {
            let mut w = vec![];
            let mut q = 0;
            for _ in 0..len {
                w.push(c.bytes[(i % k as u64) as usize]);
                i /= k as u64;
            }
            for &b in &w {
                q = c.step(q, b);
            }
            if q == UNK {
                continue;
            }
            let e = c.out[q as usize];
            let (mut rx, s) = if len <= 2 {
                let mut rx = compile(t)?;
                let s0 = rx.initial_state();
                let s = rx.transition_bytes(s0, &w);
                (rx, s)
            } else {
                fresh(&c.rx, &w)
            };
            st.states += 1;
            let o = match w.len() % 3 {
                0 => observe(&mut rx, s),
                1 => {
                    let h = rx.next_byte(s);
                    let l = rx.lookahead_len_for_state(s);
                    (s.is_dead(), rx.is_accepting(s), l, h)
                }
                _ => {
                    let l = rx.lookahead_len_bytes(&w);
                    let h = rx.next_byte(s);
                    (s.is_dead(), l.is_some(), l, h)
                }
            };
            if o != e {
                return Err(format!(
                    "a fresh instance after {} answers (dead, accepts, lookahead, hint) = {o:?}; one that walked everything {e:?}",
                    show_bytes(&w)
                ));
            }
        }
    }
    Ok(())
}

const LENS: [usize; 20] = [0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 130];
const FILLS: usize = 8;

/// Whole-text queries on one buffer whose contents change between queries: every ordered pair of
/// (contents, length), and single-byte changes in place.
fn run_buf(c: &Canon, mode: u64, st: &mut Stats) -> Result<(), String> {
    let n = 160usize;
    let b = |i: usize| c.bytes[i % c.bytes.len()];
    let fill = |k: usize, i: usize| match k {
        0 => b(0),
        1 => b(1),
        2 => b(i),
        3 => b(i + 1),
        4 => b(i / 2),
        5 => if i < 16 { b(0) } else { b(1) },
        6 => if i < 33 { b(1) } else { b(0) },
        _ => if i == 0 { b(0) } else { b(1) },
    };
    let mut rx = c.rx.clone();
    let mut buf: Vec<u8> = vec![0; n];
    let mut ask = |rx: &mut Regex, w: &[u8], what: &dyn Fn() -> String| -> Result<(), String> {
        let mut q = 0;
        for &x in w {
            q = c.step(q, x);
        }
        st.transitions += 1;
        let g = match (mode % 3, std::str::from_utf8(w)) {
            (0, Ok(s)) => (rx.is_match(s), rx.lookahead_len(s)),
            (2, _) => {
                // the same by stepping, from the same buffer
                let s0 = rx.initial_state();
                let s = rx.transition_bytes(s0, w);
                (rx.is_accepting(s), rx.lookahead_len_bytes(w))
            }
            _ => (rx.is_match_bytes(w), rx.lookahead_len_bytes(w)),
        };
        if q == UNK {
            return Ok(());
        }
        let e = c.out[q as usize];
        if g != (e.1, e.2) {
            return Err(format!("matching {}: {g:?}, expected ({}, {:?}) ({})", show_bytes(w), e.1, e.2, what()));
        }
        Ok(())
    };
    for f1 in 0..FILLS {
        for &l1 in &LENS {
            for f2 in 0..FILLS {
                for &l2 in &LENS {
                    if mode >= 3 {
                        rx = c.rx.clone();
                    }
                    let off = if mode % 3 == 1 { (l1 + l2) % 7 } else { 0 };
                    for i in 0..l1 {
                        buf[off + i] = fill(f1, i);
                    }
                    ask(&mut rx, &buf[off..off + l1], &|| "first text in a buffer".into())?;
                    for i in 0..l2 {
                        buf[off + i] = fill(f2, i);
                    }
                    ask(&mut rx, &buf[off..off + l2], &|| {
                        format!("the same buffer held another text of {l1} bytes, kind {f1}, before")
                    })?;
                    if l2 > 0 {
                        // one byte changes in place
                        let i = off + (l1 * 5 + f1) % l2;
                        buf[i] = if buf[i] == b(0) { b(1) } else { b(0) };
                        ask(&mut rx, &buf[off..off + l2], &|| format!("one byte of the same buffer, at {}, changed", i - off))?;
                    }
                    st.states += 1;
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone)]
pub enum HCase {
    Buf(Arc<Term>, u64),
    Seq(Arc<Term>, Vec<u8>),
    Order(Arc<Term>, Vec<usize>, u64),
    Fresh(Arc<Term>, usize),
}

pub struct Hist;

fn w(s: &str) -> Term {
    lit(s)
}
fn ab() -> Term {
    set(|b| b == b'a' || b == b'b')
}
fn la_terms() -> Vec<Term> {
    la_patterns().into_iter().map(|(_, t)| t).collect()
}
use crate::c03_lookahead::la_patterns;

/// small automata with varied structure
fn small_terms() -> Vec<Term> {
    let a = || byte(b'a');
    let b = || byte(b'b');
    use Term::*;
    let mut v = vec![
        Cat(vec![star(ab()), a(), ab()]),
        And(vec![star(ab()), not(Cat(vec![star(ab()), w("ab"), star(ab())]))]),
        Or(vec![w("ab"), w("aab"), rep(b(), 2, 4)]),
        not(Cat(vec![any(), a()])),
        Cat(vec![star(a()), la(rep(b(), 1, INF))]),
        Cat(vec![star(ab()), la(w("ba"))]),
        Cat(vec![Or(vec![w("a"), w("ab"), w("abb")]), la(Or(vec![w("b"), w("aa")]))]),
        pre(Cat(vec![a(), w("ba"), rep(b(), 1, 2)])),
        And(vec![Cat(vec![star(any()), a()]), Cat(vec![b(), star(any())]), rep(any(), 0, 4)]),
        And(vec![star(w("aa")), star(w("aaa")), rep(a(), 1, INF)]),
        None,
        Eps,
        And(vec![w("ab"), not(w("ab"))]),
        rep(Cat(vec![a(), rep(b(), 0, 1)]), 2, 3),
        Or(vec![not(star(a())), Cat(vec![a(), not(star(b()))])]),
        Cat(vec![not(Cat(vec![star(any()), w("b"), star(any())])), w("b")]),
    ];
    v.push(pre(And(vec![star(ab()), not(star(w("ab")))])));
    v.push(Or(vec![Cat(vec![ab(), w("ab")]), Cat(vec![any(), w("ab")]), w("b")]));
    v
}

fn more_terms(tier: Tier) -> Vec<Term> {
    let mut v = small_terms();
    v.extend(la_terms());
    let pool = Pool::new(leaves_core(), uns_core(), BINS.to_vec(), 4);
    let step = tier.pick(61, 11);
    let n = pool.count(4);
    let mut i = 0;
    while i < n {
        v.push(pool.get(4, i));
        i += step;
    }
    v
}

fn big_terms(tier: Tier) -> Vec<Term> {
    use Term::*;
    let a = || byte(b'a');
    let mut v = vec![];
    let ks: &[u32] = tier.pick(&[4, 8, 11, 13][..], &[4, 8, 11, 13, 15, 16][..]);
    for &k in ks {
        v.push(Cat(vec![star(ab()), a(), rep(ab(), k, k)]));
        v.push(not(Cat(vec![star(any()), a(), rep(ab(), k - 2, k)])));
    }
    v.push(And(vec![star(rep(a(), 7, 7)), star(rep(a(), 11, 11)), star(rep(a(), 13, 13))]));
    v.push(And(vec![
        star(Or(vec![w("aab"), w("b")])),
        not(Cat(vec![star(ab()), w("bb"), rep(ab(), 5, 9), w("a"), star(ab())])),
    ]));
    v.push(rep(Or(vec![w("ab"), w("ba"), w("b")]), 40, 90));
    v.push(Or((0..60).map(|i| Cat(vec![rep(a(), i, i), rep(byte(b'b'), 60 - i, 60 - i)])).collect()));
    v
}

thread_local! {
    static CANON: std::cell::RefCell<HashMap<(usize, String), std::rc::Rc<Result<Canon, String>>>> = Default::default();
}

fn canon(t: &Arc<Term>, seq: bool, refs: &mut Refs) -> std::rc::Rc<Result<Canon, String>> {
    let k = (Arc::as_ptr(t) as usize, if Arc::strong_count(t) == 1 { t.text() } else { format!("{seq}") });
    CANON.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(c) = m.get(&k) {
            return c.clone();
        }
        if m.len() > 200 {
            m.clear();
        }
        let c = std::rc::Rc::new(match guarded(|| Canon::new(t, if !has_la(t) { 300_000 } else if seq { 30 } else { 3000 }, refs)) {
            Ok(r) => r,
            Err(e) => Err(e),
        });
        m.insert(k, c.clone());
        c
    })
}

fn seqs(name: &str, terms: Vec<Term>, depth: u32) -> Fam<HCase> {
    let terms: Vec<Arc<Term>> = terms.into_iter().map(Arc::new).collect();
    let per = NOPS.pow(depth);
    let n = terms.len() as u64;
    Fam::new(
        name,
        &format!("every sequence of {depth} out of {NOPS} operations on {n} expressions"),
        per * n,
        move |i| {
            let mut x = i % per;
            let mut ops = vec![];
            for _ in 0..depth {
                ops.push((x % NOPS) as u8);
                x /= NOPS;
            }
            Some(HCase::Seq(terms[(i / per) as usize].clone(), ops))
        },
    )
}

impl Check for Hist {
    type Case = HCase;
    type Scratch = Refs;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn scratch(&self) -> Refs {
        Refs::new()
    }
    fn families(&self, tier: Tier) -> Vec<Fam<HCase>> {
        let mut v = vec![];
        v.push(seqs("ops-shallow", more_terms(tier), tier.pick(3, 4)));
        v.push(seqs("ops-4", { let mut t = small_terms(); t.extend(la_terms()); t }, 4));
        v.push(seqs("ops-deep", small_terms()[..tier.pick(12, 18)].to_vec(), tier.pick(5, 5)));
        if tier == Tier::Thorough {
            v.push(seqs("ops-6", small_terms()[..5].to_vec(), 6));
        }
        for (name, terms, nperm) in
            [("orders-small", more_terms(tier), 6u64), ("orders-big", big_terms(tier), 6)]
        {
            let terms: Vec<Arc<Term>> = terms.into_iter().map(Arc::new).collect();
            let per = nperm * 18;
            v.push(Fam::new(
                name,
                &format!(
                    "complete walks of {} expressions: byte orders x breadth/depth first x when hints are asked x cloning half way",
                    terms.len()
                ),
                per * terms.len() as u64,
                move |i| {
                    let t = terms[(i / per) as usize].clone();
                    let k = t.part().reps1().len();
                    let j = i % per;
                    let (pi, mode) = (j % nperm, j / nperm);
                    let f: u64 = (1..=k as u64).product();
                    if k <= 3 && pi >= f {
                        return Option::None;
                    }
                    let perm = if k <= 3 {
                        permutation(k, pi)
                    } else {
                        let mut p: Vec<usize> = (0..k).collect();
                        p.rotate_left((pi as usize / 2) % k);
                        if pi % 2 == 1 {
                            p.reverse();
                        }
                        p
                    };
                    Some(HCase::Order(t, perm, mode))
                },
            ));
        }
        let mut fr = vec![];
        for t in more_terms(tier) {
            let k = t.part().reps1().len();
            let d = match k {
                1 | 2 => tier.pick(8, 11),
                3 => tier.pick(6, 8),
                _ => tier.pick(5, 6),
            };
            fr.push(HCase::Fresh(Arc::new(t), d));
        }
        let mut bf = vec![];
        for (i, t) in more_terms(tier).into_iter().enumerate() {
            let t = Arc::new(t);
            for mode in 0..6 {
                if i < 20 || tier == Tier::Thorough || mode == i as u64 % 6 {
                    bf.push(HCase::Buf(t.clone(), mode));
                }
            }
        }
        v.push(Fam::list("buffers", "whole-text queries on one buffer that is overwritten in between: all ordered pairs of (contents, length), in place changes", bf));
        v.push(Fam::list("fresh", "every word up to a length, each in an instance of its own", fr));
        v
    }
    fn text(&self, c: &HCase) -> String {
        match c {
            HCase::Seq(t, o) => {
                let o: Vec<String> = o.iter().map(|x| x.to_string()).collect();
                format!("seq {} {}", o.join("."), t.text())
            }
            HCase::Order(t, p, m) => {
                let p: Vec<String> = p.iter().map(|x| x.to_string()).collect();
                format!("order {} {m} {}", p.join("."), t.text())
            }
            HCase::Fresh(t, d) => format!("fresh {d} {}", t.text()),
            HCase::Buf(t, d) => format!("buf {d} {}", t.text()),
        }
    }
    fn parse(&self, s: &str) -> HCase {
        let (k, r) = s.split_once(' ').unwrap();
        let nums = |s: &str| s.split('.').filter(|x| !x.is_empty()).map(|x| x.parse::<usize>().unwrap()).collect::<Vec<_>>();
        match k {
            "seq" => {
                let (o, t) = r.split_once(' ').unwrap();
                HCase::Seq(Arc::new(Term::parse(t)), nums(o).iter().map(|x| *x as u8).collect())
            }
            "order" => {
                let mut i = r.splitn(3, ' ');
                let p = nums(i.next().unwrap());
                let m = i.next().unwrap().parse().unwrap();
                HCase::Order(Arc::new(Term::parse(i.next().unwrap())), p, m)
            }
            "buf" => {
                let (d, t) = r.split_once(' ').unwrap();
                HCase::Buf(Arc::new(Term::parse(t)), d.parse().unwrap())
            }
            _ => {
                let (d, t) = r.split_once(' ').unwrap();
                HCase::Fresh(Arc::new(Term::parse(t)), d.parse().unwrap())
            }
        }
    }
    fn run(&self, c: &HCase, refs: &mut Refs, st: &mut Stats) -> Result<(), String> {
        match c {
            HCase::Seq(t, ops) => {
                let cn = canon(t, true, refs);
                let cn = (*cn).as_ref().map_err(|e| e.clone())?;
                st.outcome(&ops);
                run_ops(cn, ops, st)
            }
            HCase::Order(t, p, m) => {
                let cn = canon(t, false, refs);
                let cn = (*cn).as_ref().map_err(|e| e.clone())?;
                st.max("max_automaton_states", cn.out.len() as u64);
                run_order(cn, p, *m, st)
            }
            HCase::Buf(t, m) => {
                let cn = canon(t, false, refs);
                let cn = (*cn).as_ref().map_err(|e| e.clone())?;
                run_buf(cn, *m, st)
            }
            HCase::Fresh(t, d) => {
                let cn = canon(t, false, refs);
                let cn = (*cn).as_ref().map_err(|e| e.clone())?;
                run_fresh(cn, t, *d, st)
            }
        }
    }
    fn rule(&self) -> String {
        "every sequence of operations up to the stated depth is executed on the real Regex; every answer is \
         compared with the answers of an instance without that history, and after every sequence the automaton \
         is walked again to a fixpoint from all identifiers handed out; distinct_outcomes counts distinct \
         operation sequences".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "one representative byte per byte class is stepped".into(),
            "expressions with lookahead whose automaton does not close are compared on the first 3000 states (30 in the operation sequences)".into(),
        ]
    }
}
