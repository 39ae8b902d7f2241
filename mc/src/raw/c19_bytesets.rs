//! Byte-set algebra over alphabets of every size class.

use derivre::raw::ExprSet;
use derivre::ExprRef;
use mc::run::*;

#[derive(Clone)]
pub struct SCase {
    pub n: usize,
    pub a: Vec<u8>,
    pub b: Vec<u8>,
    pub c: Vec<u8>,
}

pub struct Sets;

fn words(n: usize, v: &[u8]) -> Vec<u32> {
    let mut w = vec![0u32; (n + 31) / 32];
    for &b in v {
        w[b as usize / 32] |= 1 << (b % 32);
    }
    w
}

struct Env {
    es: ExprSet,
    n: usize,
    /// expressions seen so far by set
    seen: Vec<(Vec<u8>, ExprRef)>,
}

impl Env {
    fn check(&mut self, what: &str, e: ExprRef, want: &[bool]) -> Result<(), String> {
        let v: Vec<u8> = (0..self.n).filter(|&i| want[i]).map(|i| i as u8).collect();
        let fail = |got: String| {
            Err(format!("alphabet of {}: {what} = {got}, expected the set {v:?}", self.n))
        };
        let printed = self.es.expr_to_string_max_len(e, 4000);
        match v.len() {
            0 => {
                if e != ExprRef::NO_MATCH {
                    return fail(printed);
                }
            }
            1 => {
                if e != self.es.mk_byte(v[0]) {
                    return fail(printed);
                }
            }
            _ => {
                let w = self.es.mk_byte_set(&words(self.n, &v));
                if e != w {
                    return fail(printed);
                }
            }
        }
        // symbol by symbol, through derivatives' own membership test
        let mut dc = derivre::raw::DerivCache::new();
        for i in 0..self.n {
            let d = dc.derivative(&mut self.es, e, i as u8);
            let inside = d == ExprRef::EMPTY_STRING;
            if inside != want[i] || (!inside && d != ExprRef::NO_MATCH) {
                return Err(format!(
                    "alphabet of {}: {what}: symbol {i} member = {inside}, expected {}",
                    self.n, want[i]
                ));
            }
        }
        if let Some((_, x)) = self.seen.iter().find(|x| x.0 == v) {
            if *x != e {
                return Err(format!("alphabet of {}: {what}: the same set as a different expression", self.n));
            }
        } else {
            if let Some((o, _)) = self.seen.iter().find(|x| x.1 == e) {
                return Err(format!("alphabet of {}: {what}: {v:?} and {o:?} share an expression", self.n));
            }
            self.seen.push((v, e));
        }
        Ok(())
    }
}

fn structured(n: usize) -> Vec<Vec<u8>> {
    let m = (n - 1) as u8;
    let mut v: Vec<Vec<u8>> = vec![vec![], vec![0], vec![m], (0..=m).collect()];
    if n > 1 {
        v.push((1..=m).collect());
        v.push((0..m).collect());
        v.push((0..=m).step_by(2).collect());
        v.push((0..=m).filter(|x| x % 2 == 1).collect());
        v.push(vec![0, m]);
        v.push((1..=m).filter(|&x| x != m).collect());
    }
    for k in [31usize, 32, 33, 63, 64, 65, 127, 128, 224, 254] {
        if k < n {
            v.push(vec![k as u8]);
            v.push((0..=k as u8).collect());
            v.push((k as u8..=m).collect());
            v.push((0..=m).filter(|&x| x != k as u8).collect());
            v.push(vec![0, k as u8]);
        }
    }
    // whole words
    for w in 0..(n + 31) / 32 {
        v.push((0..=m).filter(|&x| x as usize / 32 == w).collect());
        v.push((0..=m).filter(|&x| x as usize / 32 != w).collect());
    }
    let mut u: Vec<Vec<u8>> = vec![];
    for x in v {
        if !u.contains(&x) {
            u.push(x);
        }
    }
    u
}

impl Check for Sets {
    type Case = SCase;
    type Scratch = ();
    fn id(&self) -> &'static str {
        "C19"
    }
    fn scratch(&self) {}
    fn families(&self, tier: Tier) -> Vec<Fam<SCase>> {
        let mut fams = vec![];
        for n in 1..=tier.pick(4usize, 5) {
            let k = 1u64 << n;
            let pick = move |m: u64| -> Vec<u8> { (0..n).filter(|i| m >> i & 1 == 1).map(|i| i as u8).collect() };
            fams.push(Fam::new(
                &format!("small-{n}"),
                &format!("alphabet of {n} symbols, every triple of subsets"),
                k * k * k,
                move |i| Some(SCase { n, a: pick(i % k), b: pick(i / k % k), c: pick(i / k / k) }),
            ));
        }
        // every subset pair of the four symbols around a word boundary, elsewhere empty / full
        for n in tier.pick(vec![33usize, 64, 66, 96, 256], vec![33, 34, 63, 64, 65, 66, 95, 96, 97, 128, 130, 160, 192, 224, 225, 255, 256]) {
            let lo = ((n - 1) / 32 * 32).saturating_sub(2);
            let base = lo.min(n - 4);
            let pick = move |m: u64| -> Vec<u8> {
                (0..n)
                    .filter(|&i| {
                        if i >= base && i < base + 4 {
                            m >> (i - base) & 1 == 1
                        } else {
                            m & 16 != 0
                        }
                    })
                    .map(|i| i as u8)
                    .collect()
            };
            fams.push(Fam::new(
                &format!("boundary-{n}"),
                &format!("alphabet of {n} symbols, every pair of subsets of symbols {base}..{} with the rest all out or all in", base + 4),
                32 * 32,
                move |i| Some(SCase { n, a: pick(i % 32), b: pick(i / 32), c: vec![(n - 1) as u8] }),
            ));
        }
        // every alphabet size, structured sets
        let mut idx = vec![];
        let mut tables = vec![vec![]];
        for n in 1..=256usize {
            let s = structured(n);
            let dense = tier == Tier::Thorough || n <= 4 || (n + 2) % 32 <= 4 || n >= 254;
            for a in 0..s.len() {
                for b in 0..s.len() {
                    if dense || (a * 7 + b * 3 + n) % 11 == 0 {
                        idx.push((n, a, b));
                    }
                }
            }
            tables.push(s);
        }
        fams.push(Fam::new(
            "sizes",
            "every alphabet size 1..256, pairs of structured sets",
            idx.len() as u64,
            move |i| {
                let (n, a, b) = idx[i as usize];
                let t = &tables[n];
                Some(SCase { n, a: t[a].clone(), b: t[b].clone(), c: t[(a + b) % t.len()].clone() })
            },
        ));
        fams
    }
    fn text(&self, c: &SCase) -> String {
        let h = |v: &[u8]| v.iter().map(|b| format!("{b:02x}")).collect::<String>() + ".";
        format!("{} {} {} {}", c.n, h(&c.a), h(&c.b), h(&c.c))
    }
    fn parse(&self, s: &str) -> SCase {
        let v: Vec<&str> = s.split_whitespace().collect();
        let u = |s: &str| mc::util::unhex(s.trim_end_matches('.'));
        SCase { n: v[0].parse().unwrap(), a: u(v[1]), b: u(v[2]), c: u(v[3]) }
    }
    fn run(&self, c: &SCase, _: &mut (), st: &mut Stats) -> Result<(), String> {
        let n = c.n;
        let mut env = Env { es: ExprSet::new(n), n, seen: vec![] };
        let bools = |v: &[u8]| -> Vec<bool> {
            let mut b = vec![false; n];
            v.iter().for_each(|&x| b[x as usize] = true);
            b
        };
        let (a, b, cc) = (bools(&c.a), bools(&c.b), bools(&c.c));
        let z = |f: &dyn Fn(usize) -> bool| -> Vec<bool> { (0..n).map(f).collect() };
        let ea = env.es.mk_byte_set(&words(n, &c.a));
        let eb = env.es.mk_byte_set(&words(n, &c.b));
        let ec = env.es.mk_byte_set(&words(n, &c.c));
        env.check("set A", ea, &a)?;
        env.check("set B", eb, &b)?;
        env.check("set C", ec, &cc)?;
        let mut ops = 3u64;
        // the set functions are defined on non-empty sets
        let (na, nb, nc) = (!c.a.is_empty(), !c.b.is_empty(), !c.c.is_empty());
        if na && nb {
            let e = env.es.mk_byte_set_or(&[ea, eb]);
            env.check("A or B", e, &z(&|i| a[i] || b[i]))?;
            let e = env.es.mk_byte_set_neg_or(&[ea, eb]);
            env.check("not (A or B)", e, &z(&|i| !(a[i] || b[i])))?;
            let e = env.es.mk_byte_set_and(ea, eb);
            env.check("A and B", e, &z(&|i| a[i] && b[i]))?;
            let e = env.es.mk_byte_set_sub(ea, eb);
            env.check("A minus B", e, &z(&|i| a[i] && !b[i]))?;
            let e = env.es.mk_byte_set_sub(ea, ea);
            env.check("A minus A", e, &z(&|_| false))?;
            let e = env.es.mk_byte_set_and(ea, ea);
            env.check("A and A", e, &a)?;
            ops += 6;
            if n > 1 {
                let any = ExprRef::ANY_BYTE;
                let e = env.es.mk_byte_set_and(any, ea);
                env.check("any and A", e, &a)?;
                let e = env.es.mk_byte_set_sub(any, ea);
                env.check("any minus A", e, &z(&|i| !a[i]))?;
                let e = env.es.mk_byte_set_or(&[ea, any]);
                env.check("A or any", e, &z(&|_| true))?;
                let e = env.es.mk_byte_set_sub(ea, any);
                env.check("A minus any", e, &z(&|_| false))?;
                ops += 4;
            }
        }
        if na {
            let e = env.es.mk_byte_set_not(ea);
            env.check("not A", e, &z(&|i| !a[i]))?;
            if e != ExprRef::NO_MATCH {
                let e2 = env.es.mk_byte_set_not(e);
                env.check("not not A", e2, &a)?;
                if nb {
                    let x = env.es.mk_byte_set_sub(eb, e);
                    env.check("B minus not A", x, &z(&|i| a[i] && b[i]))?;
                    let x = env.es.mk_byte_set_and(e, eb);
                    env.check("not A and B", x, &z(&|i| !a[i] && b[i]))?;
                }
            }
            ops += 4;
        }
        if na && nb && nc {
            let e = env.es.mk_byte_set_or(&[ea, eb, ec]);
            env.check("A or B or C", e, &z(&|i| a[i] || b[i] || cc[i]))?;
            let e = env.es.mk_byte_set_neg_or(&[ec, ea, eb]);
            env.check("not (A or B or C)", e, &z(&|i| !(a[i] || b[i] || cc[i])))?;
            let e = env.es.mk_byte_set_and(ea, eb);
            if e != ExprRef::NO_MATCH {
                let x = env.es.mk_byte_set_sub(e, ec);
                env.check("A and B minus C", x, &z(&|i| a[i] && b[i] && !cc[i]))?;
                let x = env.es.mk_byte_set_or(&[e, ec]);
                env.check("A and B or C", x, &z(&|i| a[i] && b[i] || cc[i]))?;
            }
            ops += 4;
        }
        // general union of single-symbol expressions collapses to the same set
        if n > 1 {
            let e = env.es.mk_or(vec![ea, eb, ec]);
            env.check("union expression", e, &z(&|i| a[i] || b[i] || cc[i]))?;
            ops += 1;
        }
        let e = env.es.mk_byte_set_or(&[]);
        env.check("empty union", e, &z(&|_| false))?;
        let e = env.es.mk_byte_set_neg_or(&[]);
        env.check("complement of nothing", e, &z(&|_| true))?;
        st.states += env.seen.len() as u64;
        st.transitions += ops + 2;
        st.outcome(&(n, env.seen.iter().map(|x| x.0.len()).collect::<Vec<_>>()));
        Ok(())
    }
    fn rule(&self) -> String {
        "every operation of the byte-set algebra on every pair/triple of sets of the family; the result must be the \
         canonical expression of exactly the computed set of symbols and contain exactly those symbols; distinct_outcomes \
         counts distinct (alphabet size, result sizes)"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "operands are non-empty sets, as the byte-set functions require".into(),
            "in a one-symbol alphabet the reserved constant ANY_BYTE is not used as an operand: it is a set node by construction".into(),
        ]
    }
}
