//! Alphabet compression is invisible; C13 exported automaton tables.

use crate::checks_lang::compile;
use crate::explore::*;
use crate::families::*;
use crate::lang::*;
use crate::run::*;
use crate::term::*;
use crate::util::*;
use derivre::{Regex, RegexBuilder};
use std::collections::{HashMap, HashSet};

pub const COMPRESS: bool = cfg!(feature = "compress");

pub fn check_alpha(a: &derivre::AlphabetInfo, d: &[&Dfa], p: &Part) -> Result<(), String> {
    let n = a.len();
    if n == 0 || n > 256 {
        return Err(format!("alphabet size {n}"));
    }
    let mut members: HashMap<usize, Vec<u8>> = HashMap::new();
    for b in 0..=255u8 {
        let m = a.map(b);
        if m >= n {
            return Err(format!("byte {b:#x} maps to symbol {m}, alphabet size is {n}"));
        }
        if !COMPRESS && m != b as usize {
            return Err(format!("without compression byte {b:#x} maps to {m}"));
        }
        members.entry(m).or_default().push(b);
    }
    // entries of a table indexed by state and symbol do not overlap
    let mut entries: HashMap<usize, (u32, usize)> = HashMap::new();
    for k in [0u32, 1, 2, 3, 127, 128, 255, 256, 257, 65_535, 65_536, 1 << 20] {
        let s = derivre::StateID::new(k);
        for b in (0..=255u8).step_by(if k > 3 { 51 } else { 1 }) {
            let at = a.map_state(s, b);
            let who = *entries.entry(at).or_insert((k, a.map(b)));
            if who != (k, a.map(b)) {
                return Err(format!("state {k} with byte {b:#x} and state {} with symbol {} share the table entry {at}", who.0, who.1));
            }
        }
    }
    let mut broken = a.clone();
    broken.enter_error_state();
    if !broken.has_error() || a.has_error() || a.len() != n {
        return Err("the error state is wrong, or shared with a copy".into());
    }
    for v in 0..n {
        let e = match members.get(&v) {
            Some(m) if m.len() == 1 => Some(m[0]),
            _ => None,
        };
        if a.inv_map(v) != e {
            return Err(format!("inv_map({v}) = {:?}, expected {e:?}", a.inv_map(v)));
        }
    }
    for (v, m) in &members {
        for &b in &m[1..] {
            let (c0, c1) = (p.class_of[m[0] as usize] as usize, p.class_of[b as usize] as usize);
            if c0 == c1 {
                continue;
            }
            for d in d {
                for q in 0..d.n() as u32 {
                    if d.step(q, c0) != d.step(q, c1) {
                        return Err(format!("bytes {:#x} and {b:#x} share symbol {v} but the expression tells them apart", m[0]));
                    }
                }
            }
        }
    }
    Ok(())
}

pub struct Alphabet;

impl Check for Alphabet {
    type Case = LCase;
    type Scratch = Refs;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn scratch(&self) -> Refs {
        Refs::new()
    }
    fn families(&self, tier: Tier) -> Vec<Fam<LCase>> {
        let mut v = term_families(tier.pick(3, 4), tier.pick(4, 5));
        v.push(alphabet_sweep(tier));
        v.push(byte_sweep(tier));
        v.push(class_mix(tier));
        v.push(width_sweep(Tier::Quick));
        v.push(set_lattice(tier));
        v.push(symbol_counts(tier));
        v.push(unicode_terms());
        v
    }
    fn text(&self, c: &LCase) -> String {
        c.term.text()
    }
    fn parse(&self, s: &str) -> LCase {
        LCase::of(Term::parse(s))
    }
    fn run(&self, c: &LCase, w: &mut Refs, st: &mut Stats) -> Result<(), String> {
        let mut rx = compile(&c.term)?;
        with_ref(c, w, |d, p| {
            check_alpha(rx.alpha(), &[d], p)?;
            st.max("max_symbols", rx.alpha().len() as u64);
            // expressions with many symbols and states are stepped on representatives of both
            // partitions (library symbols and reference classes) instead of all 256 bytes
            let bytes = if d.n() <= 64 { Bytes::All } else { Bytes::Reps };
            let x = explore(&mut rx, d, p, &Opts { bytes, mon: Mon { acc: true, dead: true, ..MON0 }, cap: 40_000 })?;
            x.record(st);
            st.outcome(&(rx.alpha().len(), (0..=255u8).map(|b| rx.alpha().map(b)).collect::<Vec<_>>()));
            Ok(())
        })
    }
    fn rule(&self) -> String {
        format!(
            "expressions sweeping the number of distinct bytes (1..256) and byte sets; every one of the 256 bytes is \
             stepped in every reachable product state (representatives when the reference has more than 64 states); \
             map / inv_map / len compared with the reference byte partition; feature compress = {COMPRESS}"
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["reference automata as for C01".into()]
    }
}

/// all families of up to 3 byte sets over a small universe of bytes
pub fn set_lattice(tier: Tier) -> Fam<LCase> {
    let uni: Vec<u8> = vec![0x00, 0x1f, b'a', 0x80, 0xff];
    let n = uni.len() as u32;
    let m = 1u64 << n;
    let shapes = tier.pick(2, 4);
    Fam::new(
        "set-lattice",
        "every triple of byte sets over 5 marked bytes (first with everything else included or not)",
        m * m * m * shapes,
        move |i| {
            let sel = |k: u64, rest: bool| {
                let uni = uni.clone();
                set(move |b| match uni.iter().position(|&x| x == b) {
                    Some(j) => k >> j & 1 == 1,
                    None => rest,
                })
            };
            let (a, b, c, s) = (i % m, i / m % m, i / m / m % m, i / m / m / m);
            // order of two of the sets is irrelevant for coverage of the compressor
            if b > c {
                return None;
            }
            let (x, y, z) = (sel(a, s & 1 == 1), sel(b, false), sel(c, s & 2 == 2));
            Some(LCase::of(Term::Or(vec![
                Term::Cat(vec![x.clone(), y.clone()]),
                Term::Cat(vec![y, z.clone(), byte(uni[0])]),
                Term::Cat(vec![z, Term::Or(vec![byte(uni[2]), x])]),
            ])))
        },
    )
}

/// exactly n symbols used through single bytes, m through sets, for many (n, m)
pub fn symbol_counts(tier: Tier) -> Fam<LCase> {
    let mut v = vec![];
    let ns: Vec<usize> = if tier == Tier::Thorough {
        (0..=256).collect()
    } else {
        (0..=256).filter(|n| n % 16 <= 1 || n % 16 == 15 || *n > 248 || *n < 6).collect()
    };
    for &n in &ns {
        for m in [0usize, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256] {
            if n + m == 0 || n + m > 256 {
                continue;
            }
            let mut alts: Vec<Term> = vec![];
            // n single bytes, taken from the top down
            for i in 0..n {
                alts.push(Term::Lit(vec![255 - i as u8, (i % 7) as u8]));
            }
            // m nested sets {0..=i}: m distinct symbols
            for i in 0..m {
                alts.push(Term::Cat(vec![range(0, i as u8), byte(b'q')]));
            }
            v.push(LCase::of(Term::Or(alts)));
        }
    }
    Fam::list("symbol-counts", "n distinct single bytes with m nested byte sets, n + m <= 256", v)
}

pub fn unicode_terms() -> Fam<LCase> {
    let rx = |s: &str, t: Term| LCase::of(Term::Rx(s.to_string(), Box::new(t)));
    let dot = || Term::Uni(vec![(0, 9), (11, 0x10FFFF)]);
    let v = vec![
        rx(".", dot()),
        rx(".*", star(dot())),
        rx("(?s:.)+x", Term::Cat(vec![rep(Term::Uni(vec![(0, 0x10FFFF)]), 1, INF), byte(b'x')])),
        rx("[^a]", Term::Uni(vec![(0, 0x60), (0x62, 0x10FFFF)])),
        rx("[\u{e9}-\u{20ac}]y|.z", Term::Or(vec![
            Term::Cat(vec![Term::Uni(vec![(0xe9, 0x20ac)]), byte(b'y')]),
            Term::Cat(vec![dot(), byte(b'z')]),
        ])),
    ];
    Fam::list("unicode", "patterns over UTF-8", v)
}

// ---------------------------------------------------------------- C13

pub struct DfaTable;

#[derive(Clone)]
pub struct DCase {
    pub c: LCase,
    pub variant: u8,
}

const VARIANTS: u64 = 6;

impl Check for DfaTable {
    type Case = DCase;
    type Scratch = Refs;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn scratch(&self) -> Refs {
        Refs::new()
    }
    fn families(&self, tier: Tier) -> Vec<Fam<DCase>> {
        let mut v = term_families(tier.pick(4, 4), tier.pick(4, 5));
        v.push(sizes(tier));
        v.push(alphabet_sweep(tier));
        v.push(class_mix(Tier::Quick));
        v.push(width_sweep(Tier::Quick));
        v.push(unicode_terms());
        let mut v: Vec<Fam<DCase>> = v
            .into_iter()
            .map(|f| times(f, VARIANTS, |c, k| Some(DCase { c, variant: k as u8 })))
            .collect();
        // the printed table, captured from a process of its own
        let l = |s: &str| Term::Lit(s.as_bytes().to_vec());
        let mut p = vec![
            Term::None, Term::Eps, byte(b'a'), l("abc"), star(l("ab")), not(l("ab")), any(), star(any()),
            Term::Or(vec![l("ab"), Term::Cat(vec![star(byte(b'a')), byte(b'c')])]),
            Term::And(vec![star(range(b'a', b'c')), not(l("b"))]),
            rep(range(b'a', b'b'), 0, 40), Term::Lit((0..=255).collect()), Term::Lit(vec![b'a'; 300]),
            Term::Cat(vec![star(byte(b'a')), la(byte(b'b'))]),
        ];
        if tier == Tier::Thorough {
            p.extend(Pool::new(leaves_core(), uns_core(), BINS.to_vec(), 3).all());
        }
        let n = p.len() as u64;
        v.push(Fam::new("printed", &format!("the printed table of {n} expressions after three histories"), n * 3, move |i| {
            Some(DCase { variant: PRINTED + (i % 3) as u8, c: LCase::of(p[(i / 3) as usize].clone()) })
        }));
        v
    }
    fn text(&self, c: &DCase) -> String {
        format!("{} {}", c.variant, c.c.term.text())
    }
    fn parse(&self, s: &str) -> DCase {
        let (a, b) = s.split_once(' ').unwrap();
        DCase { variant: a.parse().unwrap(), c: LCase::of(Term::parse(b)) }
    }
    fn run(&self, c: &DCase, w: &mut Refs, st: &mut Stats) -> Result<(), String> {
        if c.variant >= PRINTED {
            return printed(c, &self.text(c), st);
        }
        let mut rx = compile(&c.c.term)?;
        with_ref(&c.c, w, |d, p| {
            let reps = p.reps1();
            let o = Opts { bytes: Bytes::Reps1, mon: MON0, cap: 2000 };
            // different histories before the export
            match c.variant {
                0 => {}
                1 => {
                    explore(&mut rx, d, p, &o)?;
                }
                2 => {
                    // a partial walk
                    let mut s = rx.initial_state();
                    for i in 0..20 {
                        s = rx.transition(s, reps[i % reps.len()]);
                    }
                }
                3 => {
                    let mut r2 = rx.clone();
                    let _ = guarded(|| r2.dfa());
                    let s = rx.initial_state();
                    rx.transition(s, reps[0]);
                    rx.transition(s, *reps.last().unwrap());
                }
                4 => {
                    let _ = guarded(|| rx.dfa());
                }
                _ => {
                    explore(&mut rx, d, p, &Opts { cap: 3, ..o })?;
                    rx = rx.clone();
                }
            }
            let t = match guarded(|| rx.dfa()) {
                Ok(t) => t,
                Err(m) => {
                    // a refusal: only acceptable when the automaton really is large
                    let mut r2 = compile(&c.c.term)?;
                    let x = explore(&mut r2, d, p, &o)?;
                    if x.impl_states <= 200 {
                        return Err(format!("export refused ({m}) with {} states", x.impl_states));
                    }
                    st.add("refused", 1);
                    return Ok(());
                }
            };
            st.add("exported", 1);
            check_table(&mut rx, &t, st)?;
            // the table as an automaton of its own must agree with the language
            run_table(&t, &mut rx, d, p, st)?;
            // exporting again gives the same table
            if guarded(|| rx.dfa()) != Ok(t) {
                return Err("second export differs from the first".into());
            }
            Ok(())
        })
    }
    fn rule(&self) -> String {
        "every expression is exported after six different histories; the returned table is compared with stepping the \
         matcher for every reachable state and all 256 bytes, and run against the reference automaton; literals and \
         other expressions of every size around the limit check that the export refuses rather than truncates".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "a row of the table is identified by StateID::as_u32, as in Regex::dfa".into(),
            "refusing is accepted only above 200 states".into(),
        ]
    }
}

/// `print_state_table` writes to standard output: the table is printed in a child process and
/// compared with stepping the matcher.
const PRINTED: u8 = 10;
const MARK: &str = "=== table ends here";
fn printed(c: &DCase, text: &str, st: &mut Stats) -> Result<(), String> {
    let mut b = RegexBuilder::new();
    let e = b.mk(&c.c.term.to_ast()).map_err(|e| format!("building failed: {e}"))?;
    let mut rx = b.to_regex(e);
    // history: none, a partial walk, everything
    let s0 = rx.initial_state();
    let mut known: HashSet<derivre::StateID> = HashSet::from([s0]);
    if c.variant > PRINTED {
        let mut todo = vec![s0];
        let limit = if c.variant == PRINTED + 1 { 3 } else { 400 };
        while let Some(s) = todo.pop() {
            for x in 0..=255u8 {
                let t = rx.transition(s, x);
                if known.insert(t) {
                    todo.push(t);
                }
            }
            if known.len() > limit {
                break;
            }
        }
    }
    if is_child() {
        println!();
        rx.print_state_table();
        println!("{MARK}");
        std::process::exit(0);
    }
    let full = c.variant == PRINTED + 2 && known.len() <= 400;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = std::process::Command::new(exe)
        .args(["C13", "text", text])
        .env("MC_CHILD", "1")
        .output()
        .map_err(|e| e.to_string())?;
    let o = String::from_utf8_lossy(&o.stdout).to_string();
    let Some((o, _)) = o.split_once(MARK) else {
        return Err("printing the table did not finish".into());
    };
    let mut rows: Vec<Vec<String>> = vec![];
    for l in o.lines() {
        if let Some((_, r)) = l.split_once("->") {
            rows.last_mut().ok_or("an entry before the first row")?.push(r.trim().to_string());
        } else if !l.trim().is_empty() {
            rows.push(vec![]);
        }
    }
    let n = rx.alpha().len();
    let most = known.iter().map(|s| s.as_usize()).max().unwrap().max(1);
    if rows.len() <= most || (full && rows.len() != most + 1) {
        return Err(format!("{} rows printed, the highest state is {most}", rows.len()));
    }
    let (missing, dead) = (format!("{:?}", derivre::StateID::MISSING), format!("{:?}", derivre::StateID::DEAD));
    for (i, row) in rows.iter().enumerate() {
        if row.len() != n {
            return Err(format!("row {i} has {} entries, the alphabet {n}", row.len()));
        }
        let s = derivre::StateID::new(i as u32);
        for x in 0..=255u8 {
            let got = &row[rx.alpha().map(x)];
            let want = if i < 2 { dead.clone() } else { format!("{:?}", rx.transition(s, x)) };
            st.transitions += 1;
            if *got != want && (full || *got != missing) {
                return Err(format!("row {i}, byte {x:#x}: printed {got}, the matcher goes to {want}"));
            }
        }
    }
    st.states += rows.len() as u64;
    st.outcome(&o.to_string());
    Ok(())
}

fn check_table(rx: &mut Regex, t: &[u8], st: &mut Stats) -> Result<(), String> {
    let n = rx.alpha().len();
    if t.len() < 256 || (t.len() - 256) % n != 0 {
        return Err(format!("table length {} does not fit alphabet size {n}", t.len()));
    }
    let rows = (t.len() - 256) / n;
    for b in 0..=255u8 {
        if t[b as usize] as usize != rx.alpha().map(b) {
            return Err(format!("byte map differs at {b:#x}"));
        }
    }
    let s0 = rx.initial_state();
    let mut seen = HashSet::new();
    let mut todo = vec![s0];
    seen.insert(s0);
    while let Some(s) = todo.pop() {
        st.states += 1;
        if s.as_usize() >= rows {
            return Err(format!("state {s:?} has no row (only {rows} rows)"));
        }
        for b in 0..=255u8 {
            let u = rx.transition(s, b);
            st.transitions += 1;
            let e = t[256 + s.as_usize() * n + t[b as usize] as usize];
            if rx.alpha().map_state(s, b) != s.as_usize() * n + t[b as usize] as usize {
                return Err(format!("map_state gives {} for state {s:?} byte {b:#x}", rx.alpha().map_state(s, b)));
            }
            if e as u32 != u.as_u32() {
                return Err(format!("table has {e} for state {s:?} byte {b:#x}, matcher goes to {u:?}"));
            }
            if seen.insert(u) {
                todo.push(u);
            }
        }
    }
    Ok(())
}

fn run_table(t: &[u8], rx: &mut Regex, d: &Dfa, p: &Part, st: &mut Stats) -> Result<(), String> {
    let n = rx.alpha().len();
    let s0 = rx.initial_state().as_u32() as u8;
    let mut seen = HashSet::new();
    let mut todo = vec![(s0, 0u32)];
    seen.insert((s0, 0));
    while let Some((s, q)) = todo.pop() {
        // row 0 is the dead state
        if (s == 0) == d.live[q as usize] {
            return Err(format!("table state {s}: dead = {}, language disagrees", s == 0));
        }
        for b in p.reps() {
            let u = t[256 + s as usize * n + t[b as usize] as usize];
            let r = d.step(q, p.class_of[b as usize] as usize);
            st.transitions += 1;
            if seen.insert((u, r)) {
                todo.push((u, r));
            }
        }
    }
    st.outcome(&t.to_vec());
    Ok(())
}

/// automata of every size around the one-byte limit
fn sizes(tier: Tier) -> Fam<LCase> {
    let mut v = vec![];
    let ns: Vec<usize> = match tier {
        Tier::Quick => (1..=30).chain((200..=300).step_by(1)).chain([400, 508, 509, 510, 511, 512, 513, 514, 520, 600, 765, 770]).collect(),
        Tier::Thorough => (1..=780).collect(),
    };
    for n in ns {
        v.push(LCase::of(Term::Lit(vec![b'a'; n])));
        v.push(LCase::of(star(Term::Lit(vec![b'a'; n]))));
        v.push(LCase::of(rep(range(b'a', b'b'), 0, n as u32)));
        // n distinct bytes: table width grows too
        if n <= 256 {
            v.push(LCase::of(Term::Lit((0..n).map(|i| i as u8).collect())));
        }
        // all strings with n a's modulo: complement
        v.push(LCase::of(not(rep(byte(b'a'), n as u32, n as u32))));
    }
    Fam::list("sizes", "automata with every number of states around the limit", v)
}
