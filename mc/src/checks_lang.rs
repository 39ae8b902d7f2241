//! Checks whose oracle is the reference language of one expression:
//! C01 acceptance, C04 dead states, C06 next-byte hints, C16 finiteness.

use crate::c03_lookahead::*;
use crate::explore::*;
use crate::families::*;
use crate::run::*;
use crate::term::*;
use derivre::{Regex, RegexBuilder};

pub fn compile(t: &Term) -> Result<Regex, String> {
    let ast = t.to_ast();
    let mut b = RegexBuilder::new();
    let e = b.mk(&ast).map_err(|e| format!("building failed: {e}"))?;
    Ok(b.to_regex(e))
}

/// The pending parts of a lookahead expression do not pile up: along a periodic text no step
/// costs much more than the early ones did.
pub fn steady(t: &Term, st: &mut Stats) -> Result<(), String> {
    const STEPS: usize = 1920;
    let rx0 = compile(t)?;
    let words: [&[u8]; 9] = [b"a", b"b", b"ab", b"aab", b"abb", b"aabb", b"abab\x80b", b"aaab", b"abbbab"];
    for w in words {
        let mut rx = rx0.clone();
        let mut s = rx.initial_state();
        let mut at = vec![rx.cost()];
        let mut i = 0;
        while i < STEPS && !s.is_dead() {
            s = rx.transition(s, w[i % w.len()]);
            i += 1;
            if i % 120 == 0 {
                at.push(rx.cost());
            }
        }
        st.transitions += i as u64;
        st.states += i as u64;
        // blocks of 120 steps
        let d: Vec<u64> = at.windows(2).map(|x| x[1] - x[0]).collect();
        st.max("most_expensive_later_block", d.iter().skip(2).copied().max().unwrap_or(0));
        if let (Some(&early), true) = (d[..d.len().min(2)].iter().max(), d.len() > 4) {
            for (k, &x) in d.iter().enumerate().skip(2) {
                if x > 4 * early + 5000 {
                    return Err(format!(
                        "along repeated {}: 120 steps after {} cost {x}, early ones cost {early}",
                        show_bytes(w),
                        k * 120
                    ));
                }
            }
        }
        st.outcome(&(w, d.first().copied(), i));
    }
    Ok(())
}
fn steady_families() -> Vec<Fam<AnyCase>> {
    let pool = Pool::new(leaves_core(), uns_core(), BINS.to_vec(), 3).all();
    let n = pool.len() as u64;
    let pool2 = pool.clone();
    let p3: Vec<Term> = Pool::new(leaves_core(), uns_core(), BINS.to_vec(), 3).all();
    let m = p3.len() as u64;
    let fixed = [
        star(byte(b'a')),
        star(any()),
        star(Term::Or(vec![byte(b'a'), byte(b'b')])),
        star(Term::Cat(vec![byte(b'a'), byte(b'b')])),
        Term::Cat(vec![star(any()), byte(b'a')]),
    ];
    vec![
        Fam::new(
            "steady-pairs",
            &format!("A(?P<stop>B) for all pairs of {n} small terms along nine periodic texts of 1920 bytes"),
            n * n,
            move |i| Some(AnyCase::Steady(Term::Cat(vec![pool[(i / n) as usize].clone(), la(pool[(i % n) as usize].clone())]))),
        ),
        Fam::new(
            "steady-repeated",
            &format!("five repetitions before, or in a union with, (?P<stop>B) for each of {m} terms, along the same texts"),
            m * 10,
            move |i| {
                let b = p3[(i / 10) as usize].clone();
                let a = fixed[(i % 5) as usize].clone();
                let one = Term::Cat(vec![a.clone(), la(Term::Cat(vec![b.clone(), byte(b'x')]))]);
                Some(AnyCase::Steady(if i / 5 % 2 == 0 {
                    one
                } else {
                    Term::Or(vec![one, Term::Cat(vec![star(any()), la(Term::Cat(vec![star(b), byte(b'y')]))]), Term::Cat(vec![a, byte(b'z')])])
                }))
            },
        ),
        Fam::new(
            "steady-plain",
            "the small terms themselves and their repetitions along the same texts",
            n * 2,
            move |i| {
                let t = pool2[(i / 2) as usize].clone();
                Some(AnyCase::Steady(if i % 2 == 0 { t } else { star(t) }))
            },
        ),
    ]
}

pub struct LangCheck {
    pub id: &'static str,
    pub mon: Mon,
    pub bytes: Bytes,
    pub cap: usize,
}

impl Check for LangCheck {
    type Case = AnyCase;
    type Scratch = Refs;
    fn id(&self) -> &'static str {
        self.id
    }
    fn scratch(&self) -> Refs {
        Refs::new()
    }
    fn families(&self, tier: Tier) -> Vec<Fam<AnyCase>> {
        let mut v: Vec<Fam<AnyCase>> = vec![];
        for f in standard(tier) {
            let get = f.get;
            v.push(Fam::new(&f.name, &f.note, f.count, move |i| get(i).map(AnyCase::Plain)));
        }
        if self.mon.finite {
            v.extend(steady_families());
        }
        if self.mon.dead || self.mon.next {
            for f in la_families(tier) {
                let get = f.get;
                v.push(Fam::new(&f.name, &f.note, f.count, move |i| get(i).map(AnyCase::La)));
            }
        }
        v
    }
    fn text(&self, c: &AnyCase) -> String {
        match c {
            AnyCase::La(c) => format!("la {}", c.text()),
            AnyCase::Plain(c) => format!("plain {}", c.term.text()),
            AnyCase::Steady(t) => format!("steady {}", t.text()),
        }
    }
    fn parse(&self, s: &str) -> AnyCase {
        match s.split_once(' ').unwrap() {
            ("la", r) => AnyCase::La(LaCase::parse(r)),
            ("steady", r) => AnyCase::Steady(Term::parse(r)),
            (_, r) => AnyCase::Plain(LCase::of(Term::parse(r))),
        }
    }
    fn run(&self, c: &AnyCase, w: &mut Refs, st: &mut Stats) -> Result<(), String> {
        let c = match c {
            AnyCase::La(c) => return run_la(c, w, st, &self.mon),
            AnyCase::Steady(t) => return steady(t, st),
            AnyCase::Plain(c) => c,
        };
        let own;
        let p = match &c.part {
            Some(p) => &**p,
            None => {
                own = c.term.part();
                &own
            }
        };
        let langs = w.langs(p);
        let l = c.term.lang(langs, p);
        let d = langs.get(l).clone();
        let ast = c.term.to_ast();
        let mut b = RegexBuilder::new();
        let e = b.mk(&ast).map_err(|e| format!("building failed: {e}"))?;
        if self.mon.acc && b.is_nullable(e) != d.acc[0] {
            return Err(format!(
                "is_nullable = {}, but the empty string {} in the language",
                b.is_nullable(e),
                if d.acc[0] { "is" } else { "is not" }
            ));
        }
        let mut rx = b.to_regex(e);
        let o = Opts { bytes: self.bytes, mon: self.mon, cap: self.cap };
        let x = explore(&mut rx, &d, p, &o)?;
        x.record(st);
        st.outcome(&(&d.trans, &d.acc));
        Ok(())
    }
    fn rule(&self) -> String {
        "cases are expressions enumerated exhaustively per family; each is compiled by the real library and the \
         product of its lazily built automaton with an independently constructed reference automaton is explored \
         to a fixpoint, which decides the property for all byte strings; distinct_outcomes counts distinct \
         reference languages"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the reference automaton construction (mc/src/lang.rs: subset construction + partition refinement) is correct".into(),
            "within a reference byte class one to three representative bytes are stepped unless stated otherwise (C09 steps all 256)".into(),
        ]
    }
}
