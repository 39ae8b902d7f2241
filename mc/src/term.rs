//! Test-side syntax of expressions: conversion to the library's RegexAst, textual form
//! (for replay files), and evaluation to a reference language.

use crate::lang::{LangId, Langs, Part, INF};
use crate::utf8;
use derivre::RegexAst;

pub type BSet = [bool; 256];

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Term {
    Byte(u8),
    Set(Box<BSet>),
    /// RegexAst::ByteLiteral
    Lit(Vec<u8>),
    /// RegexAst::Literal
    Txt(String),
    Eps,
    None,
    Cat(Vec<Term>),
    Or(Vec<Term>),
    And(Vec<Term>),
    Not(Box<Term>),
    Pre(Box<Term>),
    Rep(Box<Term>, u32, u32),
    La(Box<Term>),
    /// UTF-8 encodings of a set of scalar values (reference only)
    Uni(Vec<(u32, u32)>),
    /// a pattern string together with its reference meaning
    Rx(String, Box<Term>),
}
use Term::*;

pub fn bset(f: impl Fn(u8) -> bool) -> BSet {
    let mut r = [false; 256];
    for b in 0..256 {
        r[b] = f(b as u8);
    }
    r
}
pub fn set(f: impl Fn(u8) -> bool) -> Term {
    Set(Box::new(bset(f)))
}
pub fn range(a: u8, b: u8) -> Term {
    set(|x| x >= a && x <= b)
}
pub fn any() -> Term {
    set(|_| true)
}
pub fn not(t: Term) -> Term {
    Not(Box::new(t))
}
pub fn pre(t: Term) -> Term {
    Pre(Box::new(t))
}
pub fn la(t: Term) -> Term {
    La(Box::new(t))
}
pub fn rep(t: Term, a: u32, b: u32) -> Term {
    Rep(Box::new(t), a, b)
}
pub fn star(t: Term) -> Term {
    rep(t, 0, INF)
}

pub fn words_of(s: &BSet) -> Vec<u32> {
    let mut w = vec![0u32; 8];
    for b in 0..256 {
        if s[b] {
            w[b / 32] |= 1 << (b % 32);
        }
    }
    w
}

impl Term {
    pub fn to_ast(&self) -> RegexAst {
        let m = |v: &Vec<Term>| v.iter().map(|t| t.to_ast()).collect::<Vec<_>>();
        match self {
            Byte(b) => RegexAst::Byte(*b),
            Set(s) => RegexAst::ByteSet(words_of(s)),
            Lit(v) => RegexAst::ByteLiteral(v.clone()),
            Txt(s) => RegexAst::Literal(s.clone()),
            Eps => RegexAst::EmptyString,
            None => RegexAst::NoMatch,
            Cat(v) => RegexAst::Concat(m(v)),
            Or(v) => RegexAst::Or(m(v)),
            And(v) => RegexAst::And(m(v)),
            Not(t) => RegexAst::Not(Box::new(t.to_ast())),
            Pre(t) => RegexAst::Prefixes(Box::new(t.to_ast())),
            Rep(t, a, b) => RegexAst::Repeat(Box::new(t.to_ast()), *a, *b),
            La(t) => RegexAst::LookAhead(Box::new(t.to_ast())),
            Uni(_) => panic!("reference-only term"),
            Rx(s, _) => RegexAst::Regex(s.clone()),
        }
    }

    pub fn sets(&self, out: &mut Vec<BSet>) {
        match self {
            Byte(b) => {
                let b = *b;
                out.push(bset(|x| x == b))
            }
            Set(s) => out.push(**s),
            Lit(v) => {
                for &b in v {
                    out.push(bset(|x| x == b))
                }
            }
            Txt(s) => {
                for &b in s.as_bytes() {
                    out.push(bset(|x| x == b))
                }
            }
            Uni(r) => out.extend(utf8::byte_dfa(r).column_sets()),
            Eps | None => {}
            Cat(v) | Or(v) | And(v) => v.iter().for_each(|t| t.sets(out)),
            Not(t) | Pre(t) | Rep(t, _, _) | La(t) | Rx(_, t) => t.sets(out),
        }
    }

    pub fn part(&self) -> Part {
        let mut v = vec![];
        self.sets(&mut v);
        v.sort_unstable();
        v.dedup();
        Part::from_sets(&v)
    }

    /// Reference language (lookahead-free terms only).
    pub fn lang(&self, l: &mut Langs, p: &Part) -> LangId {
        match self {
            Byte(b) => l.lit(&[p.class_of[*b as usize] as usize]),
            Set(s) => {
                let cls: Vec<bool> = p.members.iter().map(|m| s[m[0] as usize]).collect();
                l.set(&cls)
            }
            Lit(v) => {
                let c: Vec<usize> = v.iter().map(|&b| p.class_of[b as usize] as usize).collect();
                l.lit(&c)
            }
            Txt(s) => {
                let c: Vec<usize> =
                    s.as_bytes().iter().map(|&b| p.class_of[b as usize] as usize).collect();
                l.lit(&c)
            }
            Eps => l.eps(),
            None => l.none(),
            Uni(r) => {
                let d = utf8::byte_dfa(r).dfa(p);
                l.add(d)
            }
            Cat(v) => {
                // a trailing lookahead stops at its first match
                let n = v.len();
                let x: Vec<LangId> = v
                    .iter()
                    .enumerate()
                    .map(|(i, t)| match t {
                        La(t) if i + 1 == n => {
                            let b = t.lang(l, p);
                            l.minwords(b)
                        }
                        _ => t.lang(l, p),
                    })
                    .collect();
                l.cat(&x)
            }
            Or(v) => {
                let x: Vec<LangId> = v.iter().map(|t| t.lang(l, p)).collect();
                l.or(&x)
            }
            And(v) => {
                let x: Vec<LangId> = v.iter().map(|t| t.lang(l, p)).collect();
                l.and(&x)
            }
            Not(t) => {
                let x = t.lang(l, p);
                l.not(x)
            }
            Pre(t) => {
                let x = t.lang(l, p);
                l.prefixes(x)
            }
            Rep(t, a, b) => {
                let x = t.lang(l, p);
                l.rep(x, *a, *b)
            }
            La(_) => panic!("lookahead has no plain language"),
            Rx(_, t) => t.lang(l, p),
        }
    }

    pub fn size(&self) -> usize {
        match self {
            Cat(v) | Or(v) | And(v) => 1 + v.iter().map(|t| t.size()).sum::<usize>(),
            Not(t) | Pre(t) | Rep(t, _, _) | La(t) | Rx(_, t) => 1 + t.size(),
            _ => 1,
        }
    }

    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    fn write(&self, o: &mut String) {
        fn hex(v: &[u8]) -> String {
            v.iter().map(|b| format!("{b:02x}")).collect()
        }
        let many = |o: &mut String, n: &str, v: &Vec<Term>| {
            o.push('(');
            o.push_str(n);
            for t in v {
                o.push(' ');
                t.write(o);
            }
            o.push(')');
        };
        match self {
            Byte(b) => o.push_str(&format!("b:{b:02x}")),
            Set(s) => {
                o.push_str("s:");
                let mut b = 0;
                let mut first = true;
                while b < 256 {
                    if s[b] {
                        let st = b;
                        while b + 1 < 256 && s[b + 1] {
                            b += 1;
                        }
                        if !first {
                            o.push(',');
                        }
                        first = false;
                        o.push_str(&format!("{st:02x}-{b:02x}"));
                    }
                    b += 1;
                }
            }
            Lit(v) => o.push_str(&format!("l:{}", hex(v))),
            Txt(s) => o.push_str(&format!("t:{}", hex(s.as_bytes()))),
            Uni(r) => {
                o.push_str("u:");
                let v: Vec<String> = r.iter().map(|(a, b)| format!("{a:x}-{b:x}")).collect();
                o.push_str(&v.join(","));
            }
            Eps => o.push_str("eps"),
            None => o.push_str("none"),
            Cat(v) => many(o, "cat", v),
            Or(v) => many(o, "or", v),
            And(v) => many(o, "and", v),
            Not(t) | Pre(t) | La(t) => {
                o.push_str(match self {
                    Not(_) => "(not ",
                    Pre(_) => "(pre ",
                    _ => "(la ",
                });
                t.write(o);
                o.push(')');
            }
            Rep(t, a, b) => {
                o.push_str(&format!("(rep {a} {b} "));
                t.write(o);
                o.push(')');
            }
            Rx(s, t) => {
                o.push_str(&format!("(rx {} ", hex(s.as_bytes())));
                t.write(o);
                o.push(')');
            }
        }
    }

    pub fn parse(s: &str) -> Term {
        let toks: Vec<String> = s
            .replace('(', " ( ")
            .replace(')', " ) ")
            .split_whitespace()
            .map(|x| x.to_string())
            .collect();
        let mut i = 0;
        let t = Self::parse_toks(&toks, &mut i);
        assert!(i == toks.len(), "trailing tokens in term");
        t
    }
    fn unhex(s: &str) -> Vec<u8> {
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    }
    fn parse_toks(t: &[String], i: &mut usize) -> Term {
        let x = &t[*i];
        *i += 1;
        if x == "(" {
            let op = t[*i].clone();
            *i += 1;
            let mut nums = vec![];
            let mut rx = String::new();
            if op == "rep" {
                nums.push(t[*i].parse::<u32>().unwrap());
                nums.push(t[*i + 1].parse::<u32>().unwrap());
                *i += 2;
            }
            if op == "rx" {
                if t[*i] != "(" && t[*i].chars().all(|c| c.is_ascii_hexdigit()) && t[*i + 1] != ")" {
                    rx = String::from_utf8(Self::unhex(&t[*i])).unwrap();
                    *i += 1;
                }
            }
            let mut args = vec![];
            while t[*i] != ")" {
                args.push(Self::parse_toks(t, i));
            }
            *i += 1;
            match op.as_str() {
                "cat" => Cat(args),
                "or" => Or(args),
                "and" => And(args),
                "not" => not(args.pop().unwrap()),
                "pre" => pre(args.pop().unwrap()),
                "la" => la(args.pop().unwrap()),
                "rep" => rep(args.pop().unwrap(), nums[0], nums[1]),
                "rx" => Rx(rx, Box::new(args.pop().unwrap())),
                _ => panic!("unknown op {op}"),
            }
        } else if x == "eps" {
            Eps
        } else if x == "none" {
            None
        } else {
            let (k, v) = x.split_once(':').expect("bad token");
            match k {
                "b" => Byte(Self::unhex(v)[0]),
                "u" => Uni(
                    v.split(',')
                        .filter(|r| !r.is_empty())
                        .map(|r| {
                            let (a, b) = r.split_once('-').unwrap();
                            (u32::from_str_radix(a, 16).unwrap(), u32::from_str_radix(b, 16).unwrap())
                        })
                        .collect(),
                ),
                "l" => Lit(Self::unhex(v)),
                "t" => Txt(String::from_utf8(Self::unhex(v)).unwrap()),
                "s" => {
                    let mut s = [false; 256];
                    for r in v.split(',').filter(|r| !r.is_empty()) {
                        let (a, b) = r.split_once('-').unwrap();
                        for c in Self::unhex(a)[0]..=Self::unhex(b)[0] {
                            s[c as usize] = true;
                        }
                    }
                    Set(Box::new(s))
                }
                _ => panic!("bad token {x}"),
            }
        }
    }
}
