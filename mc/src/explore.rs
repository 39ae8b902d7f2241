//! Explicit-state exploration of the product (real matcher state) x (reference state).
//! Because both components are finite, visiting every reachable pair decides the
//! monitored property for *all* byte strings of any length.

use crate::lang::{Dfa, Part};
use crate::run::Stats;
use derivre::{NextByte, Regex, StateID};
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Bytes {
    /// one byte per reference class
    Reps1,
    /// smallest, middle and largest byte of each class
    Reps,
    /// all 256 bytes in every state
    All,
}

#[derive(Clone, Copy)]
pub struct Mon {
    /// acceptance must equal the reference (C01...)
    pub acc: bool,
    /// dead state iff residual language empty (C04)
    pub dead: bool,
    /// next-byte hints (C06)
    pub next: bool,
    /// lookahead length Some(0)/None (C03 for lookahead-free expressions)
    pub len: bool,
    /// exploration must close below the cap (C16)
    pub finite: bool,
}
pub const MON0: Mon = Mon { acc: false, dead: false, next: false, len: false, finite: false };
pub const MON_ALL: Mon = Mon { acc: true, dead: true, next: true, len: true, finite: true };

#[derive(Clone, Copy)]
pub struct Opts {
    pub bytes: Bytes,
    pub mon: Mon,
    pub cap: usize,
}

#[derive(Default)]
pub struct SmallHash(u64);
impl std::hash::Hasher for SmallHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (x ^ (x >> 29)).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 ^= self.0 >> 32;
    }
}
pub type FastMap<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<SmallHash>>;

pub fn show_bytes(b: &[u8]) -> String {
    let mut s = String::from("b\"");
    for &x in b {
        s.push_str(&std::ascii::escape_default(x).to_string());
    }
    s.push('"');
    if s.len() > 400 {
        s = format!("{}...({} bytes)", &s[..400], b.len());
    }
    s
}

/// Checks one matcher state against one reference state; returns an error text.
pub fn check_state(
    rx: &mut Regex,
    s: StateID,
    d: &Dfa,
    p: &Part,
    q: u32,
    mon: &Mon,
) -> Result<(), String> {
    let acc = d.acc[q as usize];
    let live = d.live[q as usize];
    if mon.acc {
        let a = rx.is_accepting(s);
        if a != acc {
            return Err(format!("acceptance: matcher says {a}, language says {acc}"));
        }
    }
    if mon.len {
        let l = rx.lookahead_len_for_state(s);
        let e = if acc { Some(0) } else { None };
        if l != e {
            return Err(format!("lookahead length: matcher says {l:?}, expected {e:?}"));
        }
    }
    if mon.dead {
        if s.is_dead() == live {
            return Err(format!(
                "dead state: matcher says dead={}, but a continuation {}",
                s.is_dead(),
                if live { "matches" } else { "never matches" }
            ));
        }
        if s.is_dead() != (s == StateID::DEAD) {
            return Err("is_dead() disagrees with StateID::DEAD".into());
        }
        if s.is_dead() && rx.is_accepting(s) {
            return Err("a dead state accepts".into());
        }
        if s.is_dead() {
            // a dead state stays dead under every byte
            for b in [0u8, b'a', b'b', 0x7f, 0x80, 0xff] {
                if !rx.transition(s, b).is_dead() {
                    return Err(format!("the dead state is left by byte {b:#x}"));
                }
            }
        }
    }
    if mon.next {
        let nb = rx.next_byte(s);
        check_hint(nb, s.is_dead(), d, p, q)?;
        let nb2 = rx.next_byte(s);
        if nb != nb2 {
            return Err(format!("next-byte hint changed from {nb:?} to {nb2:?}"));
        }
        // ... and against the matcher's own transitions
        let ok = match nb {
            NextByte::ForcedByte(b) => {
                !rx.is_accepting(s) && (0..=255u8).all(|x| x == b || rx.transition(s, x).is_dead())
            }
            NextByte::ForcedEOI => {
                rx.is_accepting(s) && (0..=255u8).all(|x| rx.transition(s, x).is_dead())
            }
            _ => true,
        };
        if !ok {
            return Err(format!("next-byte hint {nb:?} contradicted by the matcher's own transitions"));
        }
    }
    Ok(())
}

/// Soundness of a hint against the reference language.
pub fn check_hint(nb: NextByte, dead: bool, d: &Dfa, p: &Part, q: u32) -> Result<(), String> {
    let acc = d.acc[q as usize];
    match nb {
        NextByte::ForcedByte(b) => {
            if acc {
                return Err(format!("hint {nb:?} in a state that accepts"));
            }
            for (c, m) in p.members.iter().enumerate() {
                let t = d.step(q, c);
                if d.live[t as usize] && !(m.len() == 1 && m[0] == b) {
                    let o = m.iter().find(|&&x| x != b).unwrap();
                    return Err(format!("hint {nb:?} but byte {o:#x} also leads to a match"));
                }
            }
        }
        NextByte::ForcedEOI => {
            if !acc {
                return Err(format!("hint {nb:?} in a state that does not accept"));
            }
            for (c, m) in p.members.iter().enumerate() {
                if d.live[d.step(q, c) as usize] {
                    return Err(format!("hint {nb:?} but byte {:#x} leads to a match", m[0]));
                }
            }
        }
        NextByte::Dead => {
            if !dead || d.live[q as usize] {
                return Err("hint Dead in a state that is not dead".into());
            }
        }
        NextByte::SomeBytes => {
            if dead {
                return Err("hint SomeBytes in the dead state".into());
            }
        }
    }
    Ok(())
}

pub struct Explored {
    pub pairs: usize,
    pub transitions: u64,
    pub capped: bool,
    pub impl_states: usize,
}

pub fn explore(rx: &mut Regex, d: &Dfa, p: &Part, o: &Opts) -> Result<Explored, String> {
    let all: Vec<u8>;
    let bytes: &[u8] = match o.bytes {
        Bytes::Reps1 => {
            all = p.reps1();
            &all
        }
        Bytes::Reps => {
            all = p.reps();
            &all
        }
        Bytes::All => {
            all = (0..=255).collect();
            &all
        }
    };
    let s0 = rx.initial_state();
    if o.mon.dead && rx.always_empty() != d.is_empty() {
        return Err(format!(
            "always_empty() = {}, but the language is {}",
            rx.always_empty(),
            if d.is_empty() { "empty" } else { "not empty" }
        ));
    }
    // nodes: (state, q, parent, byte)
    let mut nodes: Vec<(StateID, u32, u32, u8)> = vec![(s0, 0, u32::MAX, 0)];
    let mut seen: FastMap<u64, ()> = Default::default();
    let key = |s: StateID, q: u32| ((s.as_u32() as u64) << 32) | q as u64;
    seen.insert(key(s0, 0), ());
    let mut i = 0;
    let mut transitions = 0u64;
    let mut capped = false;
    let witness = |nodes: &Vec<(StateID, u32, u32, u8)>, mut i: usize| {
        let mut v = vec![];
        while nodes[i].2 != u32::MAX {
            v.push(nodes[i].3);
            i = nodes[i].2 as usize;
        }
        v.reverse();
        v
    };
    while i < nodes.len() {
        let (s, q, _, _) = nodes[i];
        if let Err(m) = check_state(rx, s, d, p, q, &o.mon) {
            return Err(format!("after reading {}: {m}", show_bytes(&witness(&nodes, i))));
        }
        for &b in bytes {
            let t = rx.transition(s, b);
            let qt = d.step(q, p.class_of[b as usize] as usize);
            transitions += 1;
            if seen.insert(key(t, qt), ()).is_none() {
                if nodes.len() >= o.cap {
                    capped = true;
                    break;
                }
                nodes.push((t, qt, i as u32, b));
            }
        }
        if capped {
            break;
        }
        i += 1;
    }
    if capped && o.mon.finite {
        return Err(format!(
            "more than {} reachable (state, residual) pairs: exploration does not close \
             (the reference automaton has {} states)",
            o.cap,
            d.n()
        ));
    }
    let mut ids: Vec<u32> = nodes.iter().map(|n| n.0.as_u32()).collect();
    ids.sort_unstable();
    ids.dedup();
    Ok(Explored { pairs: nodes.len(), transitions, capped, impl_states: ids.len() })
}

impl Explored {
    pub fn record(&self, st: &mut Stats) {
        st.states += self.pairs as u64;
        st.transitions += self.transitions;
        st.capped += self.capped as u64;
        st.max("max_matcher_states_in_one_case", self.impl_states as u64);
    }
}
