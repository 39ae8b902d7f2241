//! The vector interner: every operation sequence up to a depth, against a list of vectors.

use derivre::raw::VecHashCons;
use mc::run::*;

#[derive(Clone)]
pub enum HCase {
    /// base-(ops) digits
    Seq(Vec<u16>),
    /// growth sweep: (kind, n)
    Grow(u32, u64),
}

pub struct Hash;

const VECS: [&[u32]; 6] = [&[], &[0], &[1], &[0, 0], &[0, 1], &[u32::MAX, 0]];
/// ways of inserting one vector
const FORMS: u16 = 4;
const NV: u16 = VECS.len() as u16;
/// inserts, clone-and-continue-on-clone, clone-and-continue-on-original, lookup-all, clone assignment back
const NOPS: u16 = NV * FORMS + 4;

struct Model {
    list: Vec<Vec<u32>>,
}
impl Model {
    fn insert(&mut self, v: &[u32]) -> u32 {
        match self.list.iter().position(|x| x == v) {
            Some(i) => i as u32,
            None => {
                self.list.push(v.to_vec());
                self.list.len() as u32 - 1
            }
        }
    }
}

fn put(h: &mut VecHashCons, v: &[u32], form: u16) -> u32 {
    match form {
        0 => h.insert(v),
        1 => {
            h.start_insert();
            for &x in v {
                h.push_u32(x);
            }
            h.finish_insert()
        }
        2 => {
            h.start_insert();
            let k = v.len() / 2;
            h.push_slice(&v[..k]);
            h.push_slice(&[]);
            h.push_slice(&v[k..]);
            h.finish_insert()
        }
        _ => {
            h.start_insert();
            let k = (v.len() + 1) / 2;
            for &x in &v[..k] {
                h.push_u32(x);
            }
            h.push_slice(&v[k..]);
            h.finish_insert()
        }
    }
}

fn verify(h: &VecHashCons, m: &Model) -> Result<(), String> {
    if h.len() != m.list.len() {
        return Err(format!("len() = {}, {} distinct vectors were inserted", h.len(), m.list.len()));
    }
    for (i, v) in m.list.iter().enumerate() {
        if !h.is_valid(i as u32) {
            return Err(format!("identifier {i} is not valid any more"));
        }
        if h.get(i as u32) != &v[..] {
            return Err(format!("get({i}) = {:?}, inserted {v:?}", h.get(i as u32)));
        }
    }
    for i in [m.list.len() as u32, m.list.len() as u32 + 1, u32::MAX] {
        if h.is_valid(i) {
            return Err(format!("identifier {i} claimed valid, only {} exist", m.list.len()));
        }
    }
    Ok(())
}

impl Check for Hash {
    type Case = HCase;
    type Scratch = ();
    fn id(&self) -> &'static str {
        "C12"
    }
    fn scratch(&self) {}
    fn families(&self, tier: Tier) -> Vec<Fam<HCase>> {
        let mut fams = vec![];
        let depth = tier.pick(4u32, 5);
        for d in 1..=depth {
            fams.push(Fam::new(
                &format!("sequences-{d}"),
                &format!("all {NOPS}^{d} operation sequences"),
                (NOPS as u64).pow(d),
                move |mut i| {
                    let mut v = vec![];
                    for _ in 0..d {
                        v.push((i % NOPS as u64) as u16);
                        i /= NOPS as u64;
                    }
                    Some(HCase::Seq(v))
                },
            ));
        }
        // deeper, one insertion form per position (form rotates), one clone kind
        let dd = tier.pick(6u32, 8);
        let k = NV as u64 + 2;
        fams.push(Fam::new(
            "deep-sequences",
            &format!("all {k}^{dd} sequences with the insertion form tied to the position"),
            k.pow(dd),
            move |mut i| {
                let mut v = vec![];
                for pos in 0..dd {
                    let o = (i % k) as u16;
                    i /= k;
                    v.push(if o < NV { o + NV * ((pos as u16 + o) % FORMS) } else { NV * FORMS + (o - NV) });
                }
                Some(HCase::Seq(v))
            },
        ));
        let mut v = vec![];
        let top = tier.pick(200u64, 600);
        for n in 0..=top {
            for kind in 0..8 {
                v.push(HCase::Grow(kind, n));
            }
        }
        for n in [896u64, 897, 1791, 1792, 1793, 3584, 3585, 7168, 14336, 28672, 57344, 57345, 120_000] {
            for kind in 0..8 {
                if kind != 1 && kind != 5 && kind != 7 {
                    v.push(HCase::Grow(kind, n));
                }
            }
        }
        for k in 7..=tier.pick(24u64, 26) {
            v.push(HCase::Grow(8, k));
        }
        fams.push(Fam::list(
            "growth",
            "vector lengths and element counts across storage and table growth, every vector re-inserted and re-read",
            v,
        ));
        fams
    }
    fn text(&self, c: &HCase) -> String {
        match c {
            HCase::Seq(v) => format!("seq {}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")),
            HCase::Grow(k, n) => format!("grow {k} {n}"),
        }
    }
    fn parse(&self, s: &str) -> HCase {
        let (a, b) = s.split_once(' ').unwrap_or((s, ""));
        let n: Vec<u64> = b.split_whitespace().map(|x| x.parse().unwrap()).collect();
        match a {
            "seq" => HCase::Seq(n.iter().map(|&x| x as u16).collect()),
            _ => HCase::Grow(n[0] as u32, n[1]),
        }
    }
    fn run(&self, c: &HCase, _: &mut (), st: &mut Stats) -> Result<(), String> {
        match c {
            HCase::Seq(ops) => {
                // the last element is the one operated on
                let mut hs = vec![(VecHashCons::new(), Model { list: vec![] })];
                for (pos, &o) in ops.iter().enumerate() {
                    let e = |m: String| format!("operation {pos} ({o}): {m}");
                    if o < NV * FORMS {
                        let v = VECS[(o % NV) as usize];
                        let (h, m) = hs.last_mut().unwrap();
                        let want = m.insert(v);
                        let got = put(h, v, o / NV);
                        if got != want {
                            return Err(e(format!("inserting {v:?} returned {got}, expected {want}")));
                        }
                    } else {
                        let (h, m) = hs.last().unwrap();
                        let copy = (h.clone(), Model { list: m.list.clone() });
                        match o - NV * FORMS {
                            0 => hs.push(copy),
                            1 => {
                                let n = hs.len();
                                hs.insert(n - 1, copy)
                            }
                            2 => {
                                // switch to the oldest one
                                hs.rotate_left(1);
                            }
                            _ => {
                                // overwrite the oldest one by a clone
                                let (h, m) = &mut hs[0];
                                h.clone_from(&copy.0);
                                m.list = copy.1.list;
                            }
                        }
                    }
                    for (h, m) in &hs {
                        verify(h, m).map_err(e)?;
                    }
                    st.transitions += 1;
                }
                st.states += hs.len() as u64;
                st.outcome(&hs.last().unwrap().1.list);
            }
            HCase::Grow(kind, n) => {
                let n = *n;
                let vecs: Vec<Vec<u32>> = match kind {
                    // counting
                    0 => (0..n).map(|i| vec![i as u32]).collect(),
                    // all lengths
                    1 => (0..n).map(|i| vec![7; i as usize]).collect(),
                    // same head, different tail
                    2 => (0..n).map(|i| vec![1, 2, 3, 4, 5, 6, 7, i as u32]).collect(),
                    // different head, same tail
                    3 => (0..n).map(|i| vec![i as u32, 2, 3, 4, 5, 6, 7]).collect(),
                    // pairs around each other
                    4 => (0..n).map(|i| vec![i as u32 / 3, (i as u32) % 3]).collect(),
                    // prefixes, longest first
                    5 => (0..n).rev().map(|i| (0..i as u32).collect()).collect(),
                    // high bits
                    6 => (0..n).map(|i| vec![(i as u32) << 16, u32::MAX - i as u32]).collect(),
                    // long vectors around a power of two, equal up to length or up to one element
                    8 => {
                        let l = 1u32 << n;
                        let mut v: Vec<Vec<u32>> = vec![vec![]];
                        for l in [l, l - 1, l + 1, l + 5] {
                            v.push((0..l).collect());
                        }
                        let mut w = v[1].clone();
                        w[l as usize - 1] = 0;
                        v.push(w);
                        let mut w = v[1].clone();
                        w[0] = 9;
                        v.push(w);
                        v.push((0..5).collect());
                        v
                    }
                    // one long vector then short ones
                    _ => std::iter::once((0..n as u32 * 3).collect::<Vec<u32>>())
                        .chain((0..n).map(|i| vec![i as u32; (i % 5) as usize]))
                        .collect(),
                };
                let mut h = VecHashCons::new();
                let mut ids = std::collections::HashMap::new();
                let mut list: Vec<Vec<u32>> = vec![];
                let mut half: Option<(VecHashCons, usize)> = None;
                for (i, v) in vecs.iter().enumerate() {
                    let nid = list.len() as u32;
                    let want = *ids.entry(v.clone()).or_insert(nid);
                    if want == nid {
                        list.push(v.clone());
                    }
                    let got = put(&mut h, v, (i % FORMS as usize) as u16);
                    if got != want {
                        return Err(format!("insertion {i} returned {got}, expected {want}"));
                    }
                    // repeat the previous one in another form
                    if i > 0 {
                        let p = &vecs[i - 1];
                        let g = put(&mut h, p, ((i + 1) % FORMS as usize) as u16);
                        if g != ids[p] {
                            return Err(format!("re-insertion of vector {} returned {g}, expected {}", i - 1, ids[p]));
                        }
                    }
                    if i == vecs.len() / 2 {
                        half = Some((h.clone(), list.len()));
                    }
                    st.transitions += 2;
                }
                let m = Model { list };
                verify(&h, &m)?;
                for (i, v) in vecs.iter().enumerate() {
                    if put(&mut h, v, (i % 3) as u16) != ids[v] {
                        return Err(format!("second pass: vector {i} got another identifier"));
                    }
                }
                verify(&h, &m)?;
                if let Some((mut c, k)) = half {
                    // the clone only has what was there when it was made, and grows on its own
                    let mut cm = Model { list: m.list[..k].to_vec() };
                    verify(&c, &cm)?;
                    // everything that was there keeps its identifier in the clone
                    for (i, v) in m.list[..k].iter().enumerate() {
                        if put(&mut c, v, (i % FORMS as usize) as u16) != i as u32 {
                            return Err(format!("a clone gives vector {i} another identifier"));
                        }
                    }
                    let odd = vec![0xABCD_EF01u32, 5];
                    cm.list.push(odd.clone());
                    if c.insert(&odd) != k as u32 {
                        return Err("insertion into a clone returned a wrong identifier".into());
                    }
                    verify(&c, &cm)?;
                    verify(&h, &m)?;
                    // clones of the whole, made in two ways; the second overwrites a structure with other contents
                    for mut c2 in [h.clone(), {
                        let mut x = c.clone();
                        x.clone_from(&h);
                        x
                    }] {
                        let mut m2 = Model { list: m.list.clone() };
                        for (i, v) in m.list.iter().enumerate() {
                            if put(&mut c2, v, (i % FORMS as usize) as u16) != i as u32 {
                                return Err(format!("a clone of the whole gives vector {i} another identifier"));
                            }
                        }
                        let n = m2.list.len() as u32;
                        if c2.insert(&odd) != n || c2.insert(&odd) != n {
                            return Err("insertion into a clone of the whole returned a wrong identifier".into());
                        }
                        m2.list.push(odd.clone());
                        verify(&c2, &m2)?;
                    }
                    verify(&h, &m)?;
                }
                st.states += m.list.len() as u64;
                st.outcome(&(kind, m.list.len()));
            }
        }
        Ok(())
    }
    fn rule(&self) -> String {
        "every sequence of insertions (four ways of cutting each of six vectors into pieces), clones and switches \
         between clones up to the depth is executed on the real structure and on a list of vectors; after each \
         operation every identifier of every live clone is read back; distinct_outcomes counts distinct final contents"
            .into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["hash collisions are not provoked: the structure seeds its hasher randomly".into()]
    }
}
