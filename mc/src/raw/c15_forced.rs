//! The forced-prefix test: every small expression against every short byte string.

use derivre::{RegexBuilder, StateID};
use mc::families::*;
use mc::lang::*;
use mc::run::*;
use mc::term::*;
use mc::util::*;
use std::sync::Arc;

pub struct Forced;

/// Does every word of the language start with w?  (From the reference automaton.)
fn forced(d: &Dfa, p: &Part, w: &[u8]) -> bool {
    let mut q = 0u32;
    for &b in w {
        // must not stop here, and every live continuation must use byte b
        if d.acc[q as usize] {
            return false;
        }
        for (c, m) in p.members.iter().enumerate() {
            if d.live[d.step(q, c) as usize] && !(m.len() == 1 && m[0] == b) {
                return false;
            }
        }
        q = d.step(q, p.class_of[b as usize] as usize);
    }
    true
}

pub fn long_literals() -> Vec<LCase> {
    let mut v = vec![];
    for n in [1usize, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 65] {
        let w: Vec<u8> = (0..n).map(|i| if i % 3 == 1 { b'b' } else { b'a' }).collect();
        v.push(LCase::of(Term::Lit(w.clone())));
        v.push(LCase::of(Term::Cat(vec![Term::Lit(w.clone()), star(byte(b'a'))])));
        v.push(LCase::of(Term::Cat(vec![Term::Lit(w.clone()), not(byte(b'a'))])));
        v.push(LCase::of(Term::Cat(vec![star(byte(b'a')), Term::Lit(w.clone())])));
        v.push(LCase::of(Term::Cat(vec![Term::Lit(w.clone()), Term::None])));
        v.push(LCase::of(Term::Or(vec![
            Term::Cat(vec![Term::Lit(w.clone()), byte(b'a')]),
            Term::Cat(vec![Term::Lit(w.clone()), Term::Lit(b"bb".to_vec())]),
        ])));
        v.push(LCase::of(rep(Term::Lit(w.clone()), 2, 3)));
        v.push(LCase::of(rep(Term::Lit(w.clone()), 0, 1)));
        v.push(LCase::of(pre(Term::Lit(w.clone()))));
        v.push(LCase::of(Term::And(vec![Term::Lit(w.clone()), not(Term::Lit(b"x".to_vec()))])));
        v.push(LCase::of(Term::Cat(vec![Term::Lit(w.clone()), range(0x80, 0xff), byte(0)])));
    }
    for b in [0u8, 1, 0x7f, 0x80, 0xff] {
        v.push(LCase::of(byte(b)));
        v.push(LCase::of(Term::Lit(vec![b, b.wrapping_add(1), b])));
        v.push(LCase::of(Term::Cat(vec![set(move |x| x == b || x == 0x55), byte(b)])));
    }
    v
}

/// The bytes a plain literal, or a concatenation beginning with one, starts with on the face of it.
fn leading(t: &Term, out: &mut Vec<u8>) -> bool {
    match t {
        Term::Lit(w) => {
            out.extend_from_slice(w);
            true
        }
        Term::Txt(w) => {
            out.extend_from_slice(w.as_bytes());
            true
        }
        Term::Eps => true,
        Term::Byte(b) => {
            out.push(*b);
            true
        }
        Term::Cat(ts) => ts.iter().all(|t| leading(t, out)),
        _ => false,
    }
}

impl Check for Forced {
    type Case = LCase;
    type Scratch = Refs;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn scratch(&self) -> Refs {
        Refs::new()
    }
    fn families(&self, tier: Tier) -> Vec<Fam<LCase>> {
        let mut v = term_families(tier.pick(4, 5), tier.pick(5, 6));
        let lits: Vec<Term> = ["", "a", "b", "aa", "ab", "ba", "aab", "abb", "aba"].iter().map(|s| lit(s)).collect();
        v.push(tuples("literal-triples", lits.into_iter().chain([star(byte(b'a')), not(byte(b'b')), rep(any(), 0, 1)]).collect(),
            3, &BINS, Arc::new(ab_part())));
        v.push(shared_heads(tier));
        v.push(repeat_sweep(Tier::Quick));
        v.push(Fam::list("literals", "long literals in eleven contexts, boundary bytes", long_literals()));
        v
    }
    fn text(&self, c: &LCase) -> String {
        c.term.text()
    }
    fn parse(&self, s: &str) -> LCase {
        LCase::of(Term::parse(s))
    }
    fn run(&self, c: &LCase, w: &mut Refs, st: &mut Stats) -> Result<(), String> {
        let mut b = RegexBuilder::new();
        let e = b.mk(&c.term.to_ast()).map_err(|e| format!("building failed: {e}"))?;
        // letters to build queries from: bytes around the class boundaries of the expression
        let own;
        let p = match &c.part {
            Some(p) => &**p,
            None => {
                own = c.term.part();
                &own
            }
        };
        let letters: Vec<u8> = {
            let mut v: Vec<u8> = p.members.iter().map(|m| m[0]).collect();
            v.truncate(6);
            v
        };
        let mut words: Vec<Vec<u8>> = vec![vec![]];
        let mut i = 0;
        let maxlen = if letters.len() <= 4 { 4 } else { 3 };
        while i < words.len() {
            let x = words[i].clone();
            if x.len() < maxlen {
                for &l in &letters {
                    let mut y = x.clone();
                    y.push(l);
                    words.push(y);
                }
            }
            i += 1;
        }
        let mut yes = 0u64;
        with_ref(c, w, |d, p| {
            // follow the only live path to get long truly forced words, and near misses of them
            let mut long = vec![];
            let mut q = 0u32;
            while long.len() < 100 && !d.acc[q as usize] {
                let l: Vec<usize> = (0..p.k()).filter(|&c| d.live[d.step(q, c) as usize]).collect();
                if l.len() != 1 {
                    break;
                }
                let m = &p.members[l[0]];
                long.push(m[m.len() / 2]);
                q = d.step(q, l[0]);
            }
            for k in 1..=long.len() {
                words.push(long[..k].to_vec());
                let mut x = long[..k].to_vec();
                x[k - 1] ^= 1;
                words.push(x);
                let mut x = long[..k].to_vec();
                x.push(b'a');
                words.push(x);
                let mut x = long[..k].to_vec();
                x[0] ^= 1;
                words.push(x);
            }
            // what can be read off the expression is recognised (unless it matches nothing at all)
            if d.live[0] {
                let mut lead = vec![];
                leading(&c.term, &mut lead);
                for k in 1..=lead.len() {
                    if !b.exprset().has_simply_forced_bytes(e, &lead[..k]) {
                        return Err(format!("{} is not recognised as a forced prefix, but the expression spells it out",
                            mc::explore::show_bytes(&lead[..k])));
                    }
                    st.transitions += 1;
                }
            }
            for w in &words {
                let a = b.exprset().has_simply_forced_bytes(e, w);
                st.transitions += 1;
                if w.is_empty() && !a {
                    return Err("the empty byte string is not a forced prefix".to_string());
                }
                if a {
                    yes += 1;
                    if !forced(d, p, w) {
                        return Err(format!(
                            "{} reported as a forced prefix, but some word does not start with it",
                            mc::explore::show_bytes(w)
                        ));
                    }
                }
            }
            Ok(())
        })?;
        // answers from the matcher itself: after a forced prefix nothing else is alive
        let mut rx = b.to_regex(e);
        for w in &words {
            if !w.is_empty() && b.exprset().has_simply_forced_bytes(e, w) && !rx.always_empty() {
                let mut s = rx.initial_state();
                for &x in w {
                    for y in 0..=255u8 {
                        if y != x && rx.transition(s, y) != StateID::DEAD {
                            return Err(format!("matcher stays alive on byte {y:#x} inside a forced prefix"));
                        }
                    }
                    s = rx.transition(s, x);
                }
            }
        }
        st.states += words.len() as u64;
        st.add("positive_answers", yes);
        st.outcome(&(yes, words.len(), c.term.size()));
        Ok(())
    }
    fn rule(&self) -> String {
        "every expression of the families times every byte string up to length 3-4 over its byte classes (and every \
         truly forced prefix up to 100 bytes with near misses); each positive answer is compared with inclusion of \
         the reference language in that prefix"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["reference automata as for C01".into()]
    }
}
