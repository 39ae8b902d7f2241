//! C11: Unicode classes are exact in UTF-8; default patterns match only valid UTF-8.

use crate::c02_patterns::{listed, pool, PoolKind};
use crate::explore::*;
use crate::lang::Dfa;
use crate::pat::*;
use crate::run::*;
use crate::utf8;
use crate::util::*;
use derivre::{Regex, RegexBuilder};

#[derive(Clone)]
pub enum UCase {
    /// class of ranges, negated, checked on all bytes
    Ranges(Vec<(u32, u32)>, bool),
    /// a block of 256 scalar values, each as a pattern of its own
    Block(u32),
    /// pattern that is one class for the parser, or several concatenated
    Pat(String),
    /// pattern compiled in a builder that has seen the others before
    After(Vec<String>),
    /// the language is within UTF-8
    Within(String),
}

pub struct Unicode;

pub const CATS: &[&str] = &[
    "L", "Lu", "Ll", "Lt", "LC", "Lm", "Lo", "M", "Mn", "Mc", "Me", "N", "Nd", "Nl", "No", "P", "Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po", "S", "Sm", "Sc", "Sk", "So", "Z", "Zs", "Zl",
    "Zp", "C", "Cc", "Cf", "Co", "Cn", "any", "ascii", "assigned", "Alphabetic", "Lowercase", "Uppercase", "White_Space", "Emoji", "ID_Start", "ID_Continue", "XID_Start", "XID_Continue",
    "Math", "Hex_Digit", "Dash", "Diacritic", "Ideographic", "Cased", "Case_Ignorable", "Default_Ignorable_Code_Point", "Noncharacter_Code_Point", "Pattern_Syntax", "Pattern_White_Space",
    "Variation_Selector", "Quotation_Mark", "Extender", "Join_Control", "Grapheme_Base", "Grapheme_Extend", "Changes_When_Uppercased",
];
pub const SCRIPTS: &[&str] = &[
    "Adlam", "Arabic", "Armenian", "Bengali", "Bopomofo", "Braille", "Cherokee", "Common", "Coptic", "Cuneiform", "Cyrillic", "Deseret", "Devanagari", "Egyptian_Hieroglyphs", "Ethiopic",
    "Georgian", "Gothic", "Greek", "Gujarati", "Gurmukhi", "Han", "Hangul", "Hebrew", "Hiragana", "Inherited", "Kannada", "Katakana", "Khmer", "Lao", "Latin", "Linear_B", "Malayalam",
    "Mongolian", "Myanmar", "Nko", "Ogham", "Oriya", "Osmanya", "Phoenician", "Runic", "Sinhala", "Syriac", "Tamil", "Tangut", "Telugu", "Thaana", "Thai", "Tibetan", "Tifinagh", "Vai", "Yi",
];

pub fn bounds() -> Vec<u32> {
    vec![
        0, 1, 0x09, 0x0a, 0x41, 0x61, 0x7e, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xe9, 0xff, 0x100, 0x3ff, 0x7bf, 0x7c0, 0x7fe, 0x7ff, 0x800, 0x801, 0x83f, 0x840, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7bf,
        0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xefff, 0xf000, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1003f, 0x10040, 0x10fff, 0x11000, 0x1f600, 0x3ffff, 0x40000, 0xbffff, 0xc0000, 0xfffff, 0x100000,
        0x10f000, 0x10ffbf, 0x10fffe, 0x10ffff,
    ]
}
pub fn few_bounds() -> Vec<u32> {
    vec![0, 0x61, 0x7f, 0x80, 0x7ff, 0x800, 0x840, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10040, 0x40000, 0xfffff, 0x10ffff]
}

pub fn class_text(r: &[(u32, u32)], neg: bool) -> String {
    let mut s = String::from(if neg { "[^" } else { "[" });
    for (a, b) in r {
        if a == b {
            s.push_str(&format!("\\x{{{a:x}}}"));
        } else {
            s.push_str(&format!("\\x{{{a:x}}}-\\x{{{b:x}}}"));
        }
    }
    s.push(']');
    s
}

fn exact(rx: &mut Regex, p: &P, bytes: Bytes, st: &mut Stats) -> Result<(), String> {
    let part = p.part();
    let d = p.dfa(&part);
    let o = Opts { bytes, mon: Mon { acc: true, dead: true, ..MON0 }, cap: 60_000 };
    let x = explore(rx, &d, &part, &o)?;
    x.record(st);
    st.outcome(&(&d.trans, &d.acc));
    Ok(())
}

fn hir(s: &str) -> Result<P, String> {
    let h = regex_syntax::ParserBuilder::new().build().parse(s).map_err(|e| format!("parser refuses {s:?}: {e}"))?;
    from_hir(&h).ok_or_else(|| "lookahead".into())
}

/// single characters and byte-sized classes written as a class of scalars
fn as_uni(p: P) -> P {
    match p {
        P::Lit(v) => match std::str::from_utf8(&v).ok().map(|s| s.chars().map(|c| (c as u32, c as u32)).collect::<Vec<_>>()) {
            Some(c) if c.len() == 1 => P::Uni(c),
            _ => P::Lit(v),
        },
        P::None => P::Uni(vec![]),
        p => p,
    }
}

/// every accepted string is valid UTF-8: product of the matcher with a UTF-8 validator
fn within(rx: &mut Regex, st: &mut Stats) -> Result<(), String> {
    let valid = P::Rep(Box::new(uni(&[(0, 0x10FFFF)])), 0, u32::MAX);
    let part = valid.part();
    let d: Dfa = valid.dfa(&part);
    let s0 = rx.initial_state();
    let mut nodes = vec![(s0, 0u32, usize::MAX, 0u8)];
    let mut seen = std::collections::HashSet::new();
    seen.insert((s0.as_u32(), 0u32));
    let mut i = 0;
    while i < nodes.len() {
        let (s, q, _, _) = nodes[i];
        st.states += 1;
        let path = |nodes: &Vec<(derivre::StateID, u32, usize, u8)>| {
            let mut v = vec![];
            let mut j = i;
            while nodes[j].2 != usize::MAX {
                v.push(nodes[j].3);
                j = nodes[j].2;
            }
            v.reverse();
            show_bytes(&v)
        };
        if rx.is_accepting(s) && !d.acc[q as usize] {
            return Err(format!("accepts {}, which is not valid UTF-8", path(&nodes)));
        }
        if !d.live[q as usize] && !s.is_dead() {
            // cannot be completed to valid UTF-8 any more, so it must not be alive
            return Err(format!("a match is still possible after {}, which cannot start valid UTF-8", path(&nodes)));
        }
        if s.is_dead() {
            i += 1;
            continue;
        }
        for b in 0..=255u8 {
            let t = rx.transition(s, b);
            let qt = d.step(q, part.class_of[b as usize] as usize);
            st.transitions += 1;
            if seen.insert((t.as_u32(), qt)) {
                nodes.push((t, qt, i, b));
            }
        }
        if nodes.len() > 60_000 {
            return Err("does not close".into());
        }
        i += 1;
    }
    Ok(())
}

impl Check for Unicode {
    type Case = UCase;
    type Scratch = ();
    fn id(&self) -> &'static str {
        "C11"
    }
    fn scratch(&self) {}
    fn families(&self, tier: Tier) -> Vec<Fam<UCase>> {
        let mut fams = vec![];
        let b = bounds();
        let mut v = vec![];
        for (i, &x) in b.iter().enumerate() {
            for &y in &b[i..] {
                v.push(UCase::Ranges(vec![(x, y)], false));
                v.push(UCase::Ranges(vec![(x, y)], true));
            }
        }
        fams.push(Fam::list("one-range", "all ranges between 54 boundary values, plain and negated, all 256 bytes in every state", v));
        let f: Vec<u32> = if tier == Tier::Quick {
            let mut v: Vec<u32> = bounds().into_iter().step_by(2).chain(few_bounds()).collect();
            v.sort_unstable();
            v.dedup();
            v
        } else {
            bounds()
        };
        let mut v = vec![];
        let n = f.len();
        for i in 0..n {
            for j in i..n {
                for k in j + 1..n {
                    for l in k..n {
                        let r = vec![(f[i], f[j]), (f[k], f[l])];
                        v.push(UCase::Ranges(r.clone(), false));
                        if tier == Tier::Thorough || (i + j + k + l) % 3 == 0 {
                            v.push(UCase::Ranges(r, true));
                        }
                    }
                }
            }
        }
        fams.push(Fam::list("two-ranges", "all pairs of disjoint ranges between boundary values", v));
        // many scattered members: wide tries
        let mut v = vec![];
        for step in [2u32, 3, 63, 64, 65, 127, 1000, 4095, 4096, 4097, 65536] {
            for start in [0u32, 0x7f, 0x7c0, 0x800, 0xd000, 0xffc0, 0x10ff00] {
                for len in [0u32, 1, 62, 63] {
                    let mut r = vec![];
                    let mut c = start;
                    while r.len() < 60 && c <= 0x10ffff {
                        r.push((c, (c + len).min(0x10ffff).min(c + step - 1)));
                        c += step;
                    }
                    let r: Vec<(u32, u32)> = r
                        .into_iter()
                        .filter(|&(a, b)| utf8::is_scalar(a) && utf8::is_scalar(b) && (a < 0xd800) == (b < 0xd800))
                        .collect();
                    if !r.is_empty() {
                        v.push(UCase::Ranges(r.clone(), false));
                        v.push(UCase::Ranges(r, true));
                    }
                }
            }
        }
        fams.push(Fam::list("combs", "classes of up to 60 regularly spaced ranges", v));
        let nb = 0x110000u64 / 256;
        fams.push(Fam::new("every-scalar", "each scalar value as a one-character pattern", nb, move |i| {
            let c = i as u32 * 256;
            if (0xd800..0xe000).contains(&c) {
                None
            } else {
                Some(UCase::Block(c))
            }
        }));
        let mut v = vec![];
        for c in CATS.iter().chain(SCRIPTS) {
            for f in ["\\p{}", "\\P{}", "(?i)\\p{}", "(?i)\\P{}", "[^\\p{}a]", "[\\p{}&&[\\x{0}-\\x{3ff}]]", "[\\p{}~~\\w]"] {
                v.push(UCase::Pat(f.replacen("{}", &format!("{{{c}}}"), 1)));
            }
        }
        for c in ["\\d", "\\D", "\\s", "\\S", "\\w", "\\W", ".", "(?s).", "(?R).", "[[:alpha:]]", "[[:^alpha:]]", "[[:word:]]", "[^\\d]", "[\\d\\s]", "[\\w&&[^\\d]]", "[\\W\\d]", "[^\\W]", "[\\s\\S]", "[^\\x{0}-\\x{10ffff}]", "[\\w--\\p{Greek}]"] {
            v.push(UCase::Pat(c.into()));
            v.push(UCase::Pat(format!("(?i){c}")));
            v.push(UCase::Pat(format!("{c}{c}")));
            v.push(UCase::Pat(format!("{c}?{c}")));
            v.push(UCase::Pat(format!("({c}|[\u{e9}\u{20ac}])x")));
        }
        fams.push(Fam::list("properties", "general categories, scripts, binary properties and Perl/POSIX classes in 7 forms", v));
        // case folding of every scalar that has one, plus its neighbours
        let mut v = vec![];
        let top = 0x11_0000u32;
        for blk in (0..top).step_by(64) {
            if (0xd800..0xe000).contains(&blk) {
                continue;
            }
            v.push(UCase::Pat(format!("(?i)[\\x{{{:x}}}-\\x{{{:x}}}]", blk, blk + 63)));
        }
        for c in (0..0x600u32).chain(0x1e00..0x2200).chain(0x2c00..0x2e00).chain(0xa640..0xa800).chain(0x10400..0x10450) {
            v.push(UCase::Pat(format!("(?i)\\x{{{c:x}}}")));
        }
        fams.push(Fam::list("case-folding", "(?i) on every block of 64 scalars and on every single cased scalar", v));
        let hist: Vec<&str> = vec!["\\w", "\\d", ".", "(?s).", "[^a]", "[\u{3b1}-\u{3c9}]", "[\u{3b1}-\u{3c8}]", "[\\x{800}-\\x{ffff}]", "\\W", "[^\\x{800}-\\x{ffff}]", "\\p{Greek}", "\u{e9}", "[\u{e9}]", "[\u{e9}-\u{eb}\u{20ac}]"];
        let mut v = vec![];
        for &x in &hist {
            for &y in &hist {
                v.push(UCase::After(vec![x.into(), y.into()]));
                v.push(UCase::After(vec![x.into(), y.into(), x.into(), format!("{y}{x}")]));
                v.push(UCase::After(vec![format!("{x}|{y}"), y.into(), format!("({x}{y})?")]));
            }
        }
        fams.push(Fam::list("class-cache", "sequences of classes built in one builder", v));
        // classes that look alike: same ends, and every choice in between, all in one builder
        let mut v = vec![];
        let bases: [&[u32]; 6] = [
            &[0x61, 0x63, 0x65, 0x67, 0x69, 0x6b, 0x6d],
            &[0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67],
            &[0x00, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10ffff],
            &[0x61, 0xe9, 0x100, 0x4e00, 0x4e02, 0x1f600, 0x1f602],
            &[0x4e00, 0x4e01, 0x4e3f, 0x4e40, 0x4e80, 0x5000, 0x9fff],
            &[0x10000, 0x10001, 0x1003f, 0x10040, 0x20000, 0x100000, 0x10fffd],
        ];
        for b in bases {
            for wide in [0u32, 1] {
                let all: Vec<String> = (0..32u32)
                    .map(|m| {
                        let r: Vec<(u32, u32)> = (0..7)
                            .filter(|&i| i == 0 || i == 6 || m >> (i - 1) & 1 == 1)
                            .map(|i| (b[i], if b[i] == 0x10ffff { b[i] } else { b[i] + wide }))
                            .collect();
                        class_text(&r, false)
                    })
                    .collect();
                for turn in 0..tier.pick(4, 32) {
                    let mut x = all.clone();
                    x.rotate_left(turn * tier.pick(8, 1));
                    v.push(UCase::After(x.clone()));
                    x.reverse();
                    v.push(UCase::After(x));
                }
            }
        }
        // many ranges, one of them moved, dropped or widened
        for n in tier.pick(&[5u32, 9, 17, 33][..], &[5, 9, 17, 33, 65, 129][..]) {
            let base: Vec<(u32, u32)> = (0..*n).map(|i| (0x100 + 8 * i, 0x102 + 8 * i)).collect();
            let mut x = vec![class_text(&base, false)];
            for at in [0, 1, n / 2, n - 2, n - 1] {
                for how in 0..4 {
                    let mut r = base.clone();
                    let e = &mut r[at as usize];
                    match how {
                        0 => *e = (e.0 + 1, e.1 + 1),
                        1 => e.1 += 1,
                        2 => e.0 += 1,
                        _ => {
                            r.remove(at as usize);
                        }
                    }
                    x.push(class_text(&r, false));
                }
            }
            v.push(UCase::After(x.clone()));
            x.reverse();
            v.push(UCase::After(x));
        }
        fams.push(Fam::list("class-lookalikes", "classes with the same ends, size or number of ranges, all in one builder", v));
        let mut v: Vec<UCase> = vec![];
        for t in pool(PoolKind::Plain, 3).all() {
            v.push(UCase::Within(t.s));
        }
        for t in pool(PoolKind::More, 2).all() {
            v.push(UCase::Within(t.s));
        }
        for t in pool(PoolKind::Core, 4).all() {
            v.push(UCase::Within(t.s));
        }
        for s in listed() {
            v.push(UCase::Within(s.into()));
        }
        fams.push(Fam::list("within-utf8", "product of matcher and UTF-8 validator, all 256 bytes", v));
        fams
    }
    fn text(&self, c: &UCase) -> String {
        match c {
            UCase::Ranges(r, n) => format!(
                "ranges {} {}",
                *n as u8,
                r.iter().map(|(a, b)| format!("{a:x}-{b:x}")).collect::<Vec<_>>().join(",")
            ),
            UCase::Block(b) => format!("block {b}"),
            UCase::Pat(s) => format!("pat {}", hex(s.as_bytes())),
            UCase::After(v) => format!("after {}", v.iter().map(|s| hex(s.as_bytes())).collect::<Vec<_>>().join(",")),
            UCase::Within(s) => format!("within {}", hex(s.as_bytes())),
        }
    }
    fn parse(&self, s: &str) -> UCase {
        let (k, r) = s.split_once(' ').unwrap_or((s, ""));
        let st = |h: &str| String::from_utf8(unhex(h)).unwrap();
        match k {
            "ranges" => {
                let (n, r) = r.split_once(' ').unwrap();
                UCase::Ranges(
                    r.split(',')
                        .map(|x| {
                            let (a, b) = x.split_once('-').unwrap();
                            (u32::from_str_radix(a, 16).unwrap(), u32::from_str_radix(b, 16).unwrap())
                        })
                        .collect(),
                    n == "1",
                )
            }
            "block" => UCase::Block(r.parse().unwrap()),
            "pat" => UCase::Pat(st(r)),
            "after" => UCase::After(r.split(',').map(st).collect()),
            _ => UCase::Within(st(r)),
        }
    }
    fn prelude(&self, _: Tier, st: &mut Stats) -> Result<(), String> {
        st.add("utf8_reference_checked_scalars", utf8::validate()?);
        Ok(())
    }
    fn run(&self, c: &UCase, _: &mut (), st: &mut Stats) -> Result<(), String> {
        match c {
            UCase::Ranges(r, neg) => {
                let s = class_text(r, *neg);
                let mut set = if *neg { utf8::complement(r) } else { utf8::norm(r) };
                // regex-syntax 0.8 negates a class that has a border exactly at the surrogate gap
                // to [\u{d7ff}\u{e000}...]; what the class is, is the parser's business
                if let P::Uni(h) = as_uni(hir(&s)?) {
                    if utf8::norm(&h) != set {
                        if !(*neg && r.iter().any(|x| x.1 == 0xd7ff) && r.iter().any(|x| x.0 == 0xe000)) {
                            return Err(format!("class {s}: the parser reads it as {h:x?}"));
                        }
                        set = utf8::norm(&h);
                        st.add("classes_read_differently_by_the_parser", 1);
                    }
                }
                let mut rx = Regex::new(&s).map_err(|e| format!("class {s} refused: {e}"))?;
                exact(&mut rx, &P::Uni(set), Bytes::All, st).map_err(|m| format!("class {s}: {m}"))
            }
            UCase::Block(b) => {
                for c in *b..*b + 256 {
                    let ch = match char::from_u32(c) {
                        Some(c) => c,
                        None => continue,
                    };
                    let s = format!("\\x{{{c:x}}}");
                    let mut rx = Regex::new(&s).map_err(|e| format!("{s} refused: {e}"))?;
                    let mut buf = [0u8; 4];
                    let enc = ch.encode_utf8(&mut buf).as_bytes();
                    // the whole language is this one string: walk it, all bytes at each step
                    let mut q = rx.initial_state();
                    for (i, &e) in enc.iter().enumerate() {
                        if rx.is_accepting(q) {
                            return Err(format!("{s}: accepts after {i} bytes"));
                        }
                        for x in [e ^ 1, e.wrapping_add(1), e ^ 0x40, e ^ 0x80, 0, 0xff, 0x80, b'a'] {
                            if x != e && !rx.transition(q, x).is_dead() {
                                return Err(format!("{s}: byte {x:#x} at position {i} is not dead"));
                            }
                            st.transitions += 1;
                        }
                        q = rx.transition(q, e);
                    }
                    st.states += enc.len() as u64 + 1;
                    if !rx.is_accepting(q) {
                        return Err(format!("{s}: its encoding {} is not accepted", show_bytes(enc)));
                    }
                    if !rx.transition(q, enc[0]).is_dead() || !rx.transition(q, 0x80).is_dead() {
                        return Err(format!("{s}: continues after its encoding"));
                    }
                }
                st.outcome(b);
                Ok(())
            }
            UCase::Pat(s) => {
                let p = match hir(s) {
                    Ok(p) => p,
                    Err(_) => {
                        st.add("unknown_to_the_parser", 1);
                        return if Regex::new(s).is_ok() { Err(format!("{s} accepted")) } else { Ok(()) };
                    }
                };
                let mut rx = Regex::new(s).map_err(|e| format!("{s} refused: {e}"))?;
                exact(&mut rx, &p, Bytes::Reps, st).map_err(|m| format!("{s}: {m}"))?;
                within(&mut rx, st).map_err(|m| format!("{s}: {m}"))
            }
            UCase::After(v) => {
                let mut b = RegexBuilder::new();
                let mut refs = vec![];
                for s in v {
                    let e = b.mk_regex(s).map_err(|e| format!("{s} refused: {e}"))?;
                    refs.push(e);
                }
                for (i, s) in v.iter().enumerate() {
                    for (j, t) in v.iter().enumerate() {
                        if s == t && refs[i] != refs[j] {
                            return Err(format!("{s} built twice gives two references"));
                        }
                    }
                    let p = hir(s)?;
                    let mut rx = b.to_regex(refs[i]);
                    exact(&mut rx, &p, Bytes::Reps, st).map_err(|m| format!("{s} built as number {i}: {m}"))?;
                }
                Ok(())
            }
            UCase::Within(s) => match Regex::new(s) {
                Ok(mut rx) => within(&mut rx, st).map_err(|m| format!("{s:?}: {m}")),
                Err(_) => Ok(()),
            },
        }
    }
    fn rule(&self) -> String {
        "each class is compiled by the library and its product with an automaton built directly from the bit layout of \
         UTF-8 is explored to a fixpoint (all 256 bytes in every state for range classes), deciding exactness for every \
         scalar value and every malformed byte string; default patterns are explored in product with a UTF-8 validator"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the scalar values in a property class and the case folding tables are those of the regex-syntax crate".into(),
            "the UTF-8 reference is validated against the standard library on all scalar values in every run".into(),
        ]
    }
}

