//! helpers shared by several checks

use crate::families::*;
use crate::lang::*;
use crate::run::*;
use crate::term::*;
use std::sync::Arc;

pub fn with_ref<T>(c: &LCase, w: &mut Refs, f: impl FnOnce(&Arc<Dfa>, &Part) -> T) -> T {
    let own;
    let p = match &c.part {
        Some(p) => &**p,
        None => {
            own = c.term.part();
            &own
        }
    };
    let l = w.langs(p);
    let id = c.term.lang(l, p);
    let d = l.get(id).clone();
    f(&d, p)
}

pub fn map_fam<A: 'static, B: 'static>(f: Fam<A>, g: impl Fn(A) -> B + Sync + Send + 'static) -> Fam<B> {
    let get = f.get;
    Fam::new(&f.name, &f.note, f.count, move |i| get(i).map(&g))
}

/// every case combined with every variant number
pub fn times<A: 'static, B: 'static>(
    f: Fam<A>,
    n: u64,
    g: impl Fn(A, u64) -> Option<B> + Sync + Send + 'static,
) -> Fam<B> {
    let get = f.get;
    Fam::new(&f.name, &format!("{} x {} variants", f.note, n), f.count * n, move |i| {
        get(i / n).and_then(|a| g(a, i % n))
    })
}

/// the i-th permutation of 0..n in lexicographic order
pub fn permutation(n: usize, mut i: u64) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut r = vec![];
    for k in (1..=n).rev() {
        let f: u64 = (1..k as u64).product();
        r.push(left.remove((i / f) as usize));
        i %= f;
    }
    r
}

pub fn hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn lit(s: &str) -> Term {
    Term::Lit(s.as_bytes().to_vec())
}
