//! possible_lookahead_len on every derivative of a lookahead expression: never less than what
//! is reported now or (minus the bytes still read) later, and always the distance to a real
//! place where the lookahead may have begun.

use derivre::raw::{DerivCache, ExprSet};
use derivre::{AlphabetInfo, ExprRef, RegexBuilder};
use mc::c03_lookahead::*;
use mc::explore::show_bytes;
use mc::families::*;
use mc::run::*;
use mc::term::*;

#[derive(Clone)]
pub struct PCase {
    pub term: Term,
    pub depth: usize,
    /// non-empty: only these bytes are read
    pub bytes: Vec<u8>,
    /// with `bytes`: the first one may be repeated up to the depth, and three more bytes may follow
    pub chain: bool,
}
impl PCase {
    fn new(term: Term, depth: usize) -> PCase {
        PCase { term, depth, bytes: vec![], chain: false }
    }
}
pub struct Pending;

struct Walk<'a> {
    es: ExprSet,
    dc: DerivCache,
    alpha: AlphabetInfo,
    r: &'a LaRef,
    cls: &'a dyn Fn(u8) -> usize,
    bytes: Vec<u8>,
    steps: u64,
    states: u64,
    max_seen: usize,
    chain: bool,
}

impl Walk<'_> {
    /// returns the largest (length - bytes still read) reported in the subtree, if any
    fn go(&mut self, e: ExprRef, q: &RefState, begun: &[bool], path: &mut Vec<u8>, left: usize) -> Result<Option<isize>, String> {
        self.states += 1;
        let l = self.es.possible_lookahead_len(e);
        self.max_seen = self.max_seen.max(l);
        let n = path.len();
        // begun[i]: after i bytes some head A was complete
        if l > n || (l > 0 && !begun[n - l]) {
            return Err(format!(
                "after {}: {l} bytes said to be pending, but no lookahead can have begun {l} bytes ago",
                show_bytes(path)
            ));
        }
        if self.es.possible_lookahead_len(e) != l {
            return Err("asking again gives another answer".into());
        }
        // what is reported here (an expression without a lookahead counts as 0); whether that is
        // the right length is the subject of C03
        let mut best: Option<isize> = None;
        if self.es.is_nullable(e) {
            best = Some(self.es.lookahead_len(e).unwrap_or(0) as isize);
        }
        if left > 0 && e != ExprRef::NO_MATCH {
            for b in self.bytes.clone() {
                let s = self.alpha.map(b) as u8;
                let d = self.dc.derivative(&mut self.es, e, s);
                self.steps += 1;
                let q2 = self.r.step(q, (self.cls)(b));
                path.push(b);
                let mut bg = begun.to_vec();
                bg.push(q2.1.iter().zip(&self.r.parts).any(|((qa, _), (a, _))| a.acc[*qa as usize]));
                let more = if self.chain && b != self.bytes[0] { (left - 1).min(2) } else { left - 1 };
                let sub = self.go(d, &q2, &bg, path, more)?;
                path.pop();
                if let Some(x) = sub {
                    best = Some(best.map_or(x - 1, |y| y.max(x - 1)));
                }
            }
        }
        if let Some(x) = best {
            if x > l as isize {
                return Err(format!(
                    "after {}: {l} bytes said to be possibly pending, but a later match reports {} more than the bytes read until then",
                    show_bytes(path),
                    x
                ));
            }
        }
        Ok(best)
    }
}

impl Check for Pending {
    type Case = PCase;
    type Scratch = Refs;
    fn id(&self) -> &'static str {
        "C28"
    }
    fn scratch(&self) -> Refs {
        Refs::new()
    }
    fn families(&self, tier: Tier) -> Vec<Fam<PCase>> {
        let mut v = vec![];
        let depth = tier.pick(6, 8);
        for f in la_families(tier) {
            if f.name == "lookahead-fixed" {
                continue;
            }
            let get = f.get;
            let step = 1;
            v.push(Fam::new(&f.name, &format!("{} (here up to length {depth})", f.note), f.count / step, move |i| {
                let c = get(i * step)?;
                if !c.path.is_empty() {
                    return None;
                }
                if !c.bytes.is_empty() {
                    let mut bytes = c.bytes.clone();
                    // the chain goes along the letter a
                    let at = bytes.iter().position(|&b| b == b'a').unwrap();
                    bytes.swap(0, at);
                    return Some(PCase { term: c.term, depth: c.depth, bytes, chain: c.depth > 9 });
                }
                Some(PCase::new(c.term, depth))
            }));
        }
        // no lookahead at all: always 0
        let pool = Pool::new(leaves_full(), uns_full(), BINS.to_vec(), tier.pick(3, 4)).all();
        v.push(Fam::list("plain", "lookahead-free expressions: nothing is ever pending", pool.into_iter().map(|term| PCase::new(term, depth)).collect()));
        // many heads and tails of different lengths, one or several letters, long counts
        let l = |s: &str| Term::Lit(s.as_bytes().to_vec());
        let heads = [Term::Eps, l("a"), l("ab"), star(byte(b'a')), rep(byte(b'a'), 1, 3), star(any()), rep(any(), 0, 2), Term::Cat(vec![star(byte(b'a')), byte(b'b')])];
        let tails = [l("b"), l("ab"), l("aab"), rep(byte(b'a'), 3, 3), rep(any(), 2, 4), Term::Cat(vec![star(byte(b'a')), byte(b'b')]), Term::Cat(vec![star(any()), l("bb")]), Term::Cat(vec![byte(b'a'), not(star(byte(b'a')))])];
        let mut one = vec![];
        for h in &heads {
            for t in &tails {
                one.push(Term::Cat(vec![h.clone(), la(t.clone())]));
            }
        }
        let mut cs: Vec<PCase> = one.iter().map(|t| PCase::new(t.clone(), tier.pick(8, 11))).collect();
        for (i, x) in one.iter().enumerate() {
            for y in one.iter().skip(i + 1) {
                cs.push(PCase::new(Term::Or(vec![x.clone(), y.clone()]), tier.pick(6, 8)));
            }
        }
        v.push(Fam::list("heads-tails", "eight heads with eight lookaheads, alone to depth 8 and in all unions of two", cs));
        v
    }
    fn text(&self, c: &PCase) -> String {
        let b: String = c.bytes.iter().map(|x| format!("{x:02x}")).collect();
        format!("{}.{}.{} {}", c.depth, b, c.chain as u8, c.term.text())
    }
    fn parse(&self, s: &str) -> PCase {
        let (d, t) = s.split_once(' ').unwrap();
        let v: Vec<&str> = d.split('.').collect();
        let bytes = (0..v[1].len() / 2).map(|i| u8::from_str_radix(&v[1][2 * i..2 * i + 2], 16).unwrap()).collect();
        PCase { term: Term::parse(t), depth: v[0].parse().unwrap(), bytes, chain: v[2] == "1" }
    }
    fn run(&self, c: &PCase, w: &mut Refs, st: &mut Stats) -> Result<(), String> {
        let p = c.term.part();
        // without a lookahead the whole expression (or branch) is a head that nothing follows
        let br = split_mixed(&c.term);
        let plain = !has_la(&c.term);
        let r = LaRef::new(&br, w.langs(&p), &p);
        let mut b = RegexBuilder::new();
        let e = b.mk(&c.term.to_ast()).map_err(|e| format!("building failed: {e:#}"))?;
        let (alpha, es, roots) = AlphabetInfo::from_exprset(b.exprset(), &[e]);
        let cls = |b: u8| p.class_of[b as usize] as usize;
        let mut k = Walk {
            es,
            dc: DerivCache::new(),
            alpha,
            r: &r,
            cls: &cls,
            bytes: if c.bytes.is_empty() { p.reps1() } else { c.bytes.clone() },
            steps: 0,
            states: 0,
            max_seen: 0,
            chain: c.chain,
        };
        let q = r.init();
        let begun = vec![r.parts.iter().any(|(a, _)| a.acc[0])];
        // keep the tree below some 60000 nodes
        let mut depth = c.depth;
        while c.bytes.is_empty() && k.bytes.len().pow(depth as u32) > 60_000 {
            depth -= 1;
        }
        k.go(roots[0], &q, &begun, &mut vec![], depth)?;
        if plain && k.max_seen != 0 {
            return Err(format!("{} bytes said to be pending without any lookahead", k.max_seen));
        }
        st.states += k.states;
        st.transitions += k.steps;
        st.outcome(&(k.max_seen, k.states));
        Ok(())
    }
    fn rule(&self) -> String {
        "all byte strings (one byte per class) up to a depth over every listed expression; at every string the estimate is \
         compared with every length reported at it or any extension within the depth, and with the set of positions where a \
         head is complete"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["reference for lookahead as for C03".into(), "later matches are searched up to the depth bound only".into()]
    }
}
