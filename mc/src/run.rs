//! Check framework: exhaustive enumeration of numbered cases in parallel, crash/hang
//! supervision in a child process, replay files, known findings, evidence files.

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(&self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// A finite, completely enumerated set of cases.
pub struct Fam<C> {
    pub name: String,
    pub count: u64,
    /// enumerate-th case; None = the index denotes nothing (e.g. filtered duplicate)
    pub get: Box<dyn Fn(u64) -> Option<C> + Sync + Send>,
    pub note: String,
}

impl<C: Clone + Sync + Send + 'static> Fam<C> {
    pub fn list(name: &str, note: &str, v: Vec<C>) -> Fam<C> {
        Fam {
            name: name.into(),
            note: note.into(),
            count: v.len() as u64,
            get: Box::new(move |i| Some(v[i as usize].clone())),
        }
    }
}
impl<C> Fam<C> {
    pub fn new(
        name: &str,
        note: &str,
        count: u64,
        get: impl Fn(u64) -> Option<C> + Sync + Send + 'static,
    ) -> Fam<C> {
        Fam { name: name.into(), note: note.into(), count, get: Box::new(get) }
    }
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub states: u64,
    pub transitions: u64,
    pub capped: u64,
    /// free-form named counters (summed)
    pub counters: BTreeMap<&'static str, u64>,
    /// hashes of observed distinct outcomes
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn add(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }
    pub fn max(&mut self, name: &'static str, n: u64) {
        let e = self.counters.entry(name).or_insert(0);
        if *e < n {
            *e = n;
        }
    }
    pub fn outcome<T: std::hash::Hash>(&mut self, t: &T) {
        if self.outcomes.len() < 2_000_000 {
            use std::hash::Hasher;
            let mut h = std::collections::hash_map::DefaultHasher::new();
            t.hash(&mut h);
            self.outcomes.insert(h.finish());
        }
    }
    fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.states += o.states;
        self.transitions += o.transitions;
        self.capped += o.capped;
        for (k, v) in o.counters {
            if k.starts_with("max") {
                self.max(k, v)
            } else {
                self.add(k, v)
            }
        }
        self.outcomes.extend(o.outcomes);
        if self.samples.len() < 8 {
            self.samples.extend(o.samples);
            self.samples.truncate(8);
        }
    }
}

pub trait Check: Sync + Send {
    type Case: Send;
    /// per-thread scratch (reference tables etc.)
    type Scratch;
    fn id(&self) -> &'static str;
    fn scratch(&self) -> Self::Scratch;
    fn families(&self, tier: Tier) -> Vec<Fam<Self::Case>>;
    fn text(&self, c: &Self::Case) -> String;
    fn parse(&self, s: &str) -> Self::Case;
    fn run(&self, c: &Self::Case, w: &mut Self::Scratch, st: &mut Stats) -> Result<(), String>;
    /// One-off work done before the enumeration (e.g. validating the reference model itself).
    fn prelude(&self, _tier: Tier, _st: &mut Stats) -> Result<(), String> {
        Ok(())
    }
    fn rule(&self) -> String;
    fn assumptions(&self) -> Vec<String>;
    /// Seconds after which a single case counts as not terminating.
    fn case_timeout(&self) -> u64 {
        60
    }
    fn threads(&self) -> usize {
        std::env::var("MC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8)
        })
    }
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "unknown panic".into()
    }
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|e| format!("panic: {}", panic_text(e)))
}

fn run_guarded<C: Check>(
    chk: &C,
    case: &C::Case,
    w: &mut C::Scratch,
    st: &mut Stats,
) -> Result<(), String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| chk.run(case, w, st))) {
        Ok(r) => r,
        Err(e) => {
            *w = chk.scratch();
            Err(format!("panic: {}", panic_text(e)))
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn short(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} bytes)", &s[..e], s.len())
    }
}

struct Viol {
    fam: String,
    case: String,
    msg: String,
}

fn write_replay(id: &str, n: usize, v: &Viol) -> PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let tag = std::env::var("MC_REPLAY_TAG").unwrap_or_default();
    let p = dir.join(format!("{id}-{tag}{n}.txt"));
    let mut s = String::new();
    if tag == "nc" {
        s.push_str("# build: no-compress\n");
    } else if tag == "dbg" {
        s.push_str("# build: checked\n");
    }
    s.push_str(&format!("property {id}\nfamily {}\ncase {}\n", v.fam, v.case));
    s.push_str(&format!(
        "# {}\n# replay: {}/check.sh {id} replay {}\n",
        v.msg.replace('\n', "\n# "),
        verif_dir().display(),
        p.display()
    ));
    std::fs::write(&p, s).ok();
    p
}

/// (case text) of findings recorded for this property
fn known_findings(id: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.txt");
    let mut r = vec![];
    if let Ok(s) = std::fs::read_to_string(p) {
        for l in s.lines() {
            // known: property=<id> case=<text> ## <what>
            if let Some(x) = l.strip_prefix(&format!("known: property={id} case=")) {
                let (c, what) = x.split_once(" ## ").unwrap_or((x, ""));
                r.push((c.trim().to_string(), what.trim().to_string()));
            }
        }
    }
    r
}

/// Exit codes: 0 held, 1 violation, 2 engine error.
pub fn main<C: Check + 'static>(chk: C, args: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    // args: <mode> ...
    match args[0].as_str() {
        "run" => supervise(&chk, parse_tier(&args[1])),
        "worker" => worker(&chk, parse_tier(&args[1]), Path::new(&args[2])),
        "one" => {
            // run a single numbered case
            let fams = chk.families(parse_tier(&args[1]));
            let f: usize = args[2].parse().unwrap();
            let i: u64 = args[3].parse().unwrap();
            let c = match (fams[f].get)(i) {
                Some(c) => c,
                None => return 0,
            };
            let text = chk.text(&c);
            if args.get(4).map(|x| x == "text").unwrap_or(false) {
                println!("{}\n{}", fams[f].name, text);
                return 0;
            }
            let mut w = chk.scratch();
            let mut st = Stats::default();
            match run_guarded(&chk, &c, &mut w, &mut st) {
                Ok(()) => 0,
                Err(m) => {
                    println!("{m}");
                    1
                }
            }
        }
        "replay" => {
            let s = std::fs::read_to_string(&args[1]).unwrap();
            let case = s.lines().find_map(|l| l.strip_prefix("case ")).expect("no case line");
            let c = chk.parse(case);
            let mut w = chk.scratch();
            let mut st = Stats::default();
            match run_guarded(&chk, &c, &mut w, &mut st) {
                Ok(()) => {
                    println!("replay: property {} held on this case", chk.id());
                    0
                }
                Err(m) => {
                    println!("replay: {m}");
                    println!("VIOLATION property={} replay={}", chk.id(), args[1]);
                    1
                }
            }
        }
        "text" => {
            // run one case given as text in this process (see in_child)
            let c = chk.parse(&args[1]);
            let mut w = chk.scratch();
            let mut st = Stats::default();
            let r = run_guarded(&chk, &c, &mut w, &mut st);
            println!("states {} transitions {}", st.states, st.transitions);
            match r {
                Ok(()) => 0,
                Err(m) => {
                    println!("{m}");
                    1
                }
            }
        }
        m => panic!("unknown mode {m}"),
    }
}

pub fn is_child() -> bool {
    std::env::var("MC_CHILD").is_ok()
}

/// Run one case in a process of its own, so that a stack overflow, an abort or a hang is an
/// ordinary verdict about that case.
pub fn in_child(id: &str, case: &str, timeout_s: u64, st: &mut Stats) -> Result<(), String> {
    use std::io::Read;
    let exe = std::env::current_exe().unwrap();
    let mut ch = std::process::Command::new(exe)
        .args([id, "text", case])
        .env("MC_CHILD", "1")
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("cannot start child");
    let mut pipe = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        pipe.read_to_string(&mut s).ok();
        s
    });
    let r = match wait_timeout(&mut ch, Duration::from_secs(timeout_s)) {
        None => {
            ch.kill().ok();
            ch.wait().ok();
            rd.join().ok();
            return Err(format!("does not finish within {timeout_s}s"));
        }
        Some(r) => r,
    };
    let out = rd.join().unwrap_or_default();
    let (head, rest) = out.split_once('\n').unwrap_or((&out, ""));
    let n: Vec<u64> = head.split(' ').filter_map(|x| x.parse().ok()).collect();
    if n.len() == 2 {
        st.states += n[0];
        st.transitions += n[1];
    }
    match r.code() {
        Some(0) => Ok(()),
        Some(1) => Err(rest.trim().to_string()),
        Some(2) => {
            eprintln!("engine error in a child process");
            std::process::exit(2)
        }
        _ => Err(format!("the code under test crashed the process ({r})")),
    }
}

/// Run on a thread with the stack size Rust gives to threads by default.
pub fn on_small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    on_stack(512 << 10, f)
}
pub fn on_stack<T: Send>(size: usize, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        // the closure is handed over through a cell, so that a failed attempt does not lose it
        let cell = std::sync::Arc::new(Mutex::new(Some(f)));
        let mut tries = 0;
        let h = loop {
            let c = cell.clone();
            let r = std::thread::Builder::new().stack_size(size).spawn_scoped(s, move || {
                let f = c.lock().unwrap().take().unwrap();
                f()
            });
            match r {
                Ok(h) => break h,
                Err(e) => {
                    tries += 1;
                    if tries > 300 {
                        eprintln!("engine error: cannot start a thread: {e}");
                        std::process::exit(2);
                    }
                    std::thread::sleep(Duration::from_millis(100));
                }
            }
        };
        match h.join() {
            Ok(x) => x,
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}

pub fn parse_tier(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => panic!("bad tier {s}"),
    }
}

fn budget() -> Duration {
    Duration::from_secs(
        std::env::var("MC_BUDGET_S").ok().and_then(|x| x.parse().ok()).unwrap_or(600),
    )
}

fn worker<C: Check>(chk: &C, tier: Tier, dir: &Path) -> i32 {
    let t0 = Instant::now();
    let fams = chk.families(tier);
    let mut total = Stats::default();
    let mut viols: Vec<(usize, u64, Viol)> = vec![];
    let known = known_findings(chk.id());
    let known_hits: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
    if let Err(m) = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        chk.prelude(tier, &mut total)
    })) {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", panic_text(e))),
    } {
        // a broken reference model is an engine error, never a verdict
        eprintln!("engine error: reference validation failed: {m}");
        return 2;
    }
    let nthreads = chk.threads();
    let marker = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .open(dir.join("marker"))
        .expect("marker file");
    let mut fam_lines = vec![];
    let mut timed_out = false;
    for (fi, fam) in fams.iter().enumerate() {
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let found: Mutex<Vec<(usize, u64, Viol)>> = Mutex::new(vec![]);
        let acc: Mutex<Stats> = Mutex::new(Stats::default());
        let chunk = (fam.count / (nthreads as u64 * 64)).clamp(1, 256);
        let tf = Instant::now();
        std::thread::scope(|sc| {
            for t in 0..nthreads {
                let (next, stop, found, acc, marker, known, known_hits) =
                    (&next, &stop, &found, &acc, &marker, &known, &known_hits);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut w = chk.scratch();
                        let mut st = Stats::default();
                        let mut seq = 0u64;
                        let mut buf = [0u8; 24];
                        loop {
                            let i0 = next.fetch_add(chunk, Ordering::Relaxed);
                            if i0 >= fam.count || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if t0.elapsed() > budget() {
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                            for i in i0..(i0 + chunk).min(fam.count) {
                                seq += 1;
                                buf[0..8].copy_from_slice(&seq.to_le_bytes());
                                buf[8..16].copy_from_slice(&(fi as u64 + 1).to_le_bytes());
                                buf[16..24].copy_from_slice(&i.to_le_bytes());
                                marker.write_all_at(&buf, t as u64 * 24).ok();
                                let c = match (fam.get)(i) {
                                    Some(c) => c,
                                    None => continue,
                                };
                                st.cases += 1;
                                if st.samples.len() < 1 && (i % 17 == 5 || fam.count < 20) {
                                    st.samples.push(format!(
                                        "{}: {}",
                                        fam.name,
                                        short(&chk.text(&c), 300)
                                    ));
                                }
                                if let Err(msg) = run_guarded(chk, &c, &mut w, &mut st) {
                                    let case = chk.text(&c);
                                    if let Some((_, what)) = known.iter().find(|k| k.0 == case) {
                                        known_hits.lock().unwrap().insert(case, what.clone());
                                        continue;
                                    }
                                    let mut f = found.lock().unwrap();
                                    f.push((fi, i, Viol { fam: fam.name.clone(), case, msg }));
                                    if f.len() >= 20 {
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                }
                            }
                        }
                        // idle
                        buf[8..16].copy_from_slice(&0u64.to_le_bytes());
                        marker.write_all_at(&buf, t as u64 * 24).ok();
                        acc.lock().unwrap().merge(st);
                    })
                    .unwrap();
            }
        });
        if t0.elapsed() > budget() {
            timed_out = true;
        }
        let st = acc.into_inner().unwrap();
        fam_lines.push(format!(
            "{}: {} cases, {} states, {} transitions, {:.1}s{} ({})",
            fam.name,
            st.cases,
            st.states,
            st.transitions,
            tf.elapsed().as_secs_f32(),
            if st.capped > 0 { format!(", {} capped", st.capped) } else { String::new() },
            fam.note
        ));
        println!("  {}", fam_lines.last().unwrap());
        total.merge(st);
        viols.extend(found.into_inner().unwrap());
        if !viols.is_empty() || timed_out {
            break;
        }
    }
    viols.sort_by_key(|v| (v.0, v.2.case.len(), v.1));
    let kh = known_hits.into_inner().unwrap();
    for (c, what) in &kh {
        println!("KNOWN-FINDING: property={} {} [case {}]", chk.id(), what, short(c, 200));
    }
    write_evidence(chk, tier, &total, &fam_lines, viols.len(), timed_out, t0.elapsed(), kh.len());
    println!(
        "{}: {} cases, {} states, {} transitions, {} distinct outcomes, {} capped, {:.1}s{}",
        chk.id(),
        total.cases,
        total.states,
        total.transitions,
        total.outcomes.len(),
        total.capped,
        t0.elapsed().as_secs_f32(),
        if timed_out { " (time budget hit: not exhaustive)" } else { "" }
    );
    for (k, v) in &total.counters {
        println!("  {k} = {v}");
    }
    let mut rc = 0;
    for (n, v) in viols.iter().take(3).enumerate() {
        let p = write_replay(chk.id(), n, &v.2);
        println!("  [{}] {}\n    {}", v.2.fam, short(&v.2.case, 600), short(&v.2.msg, 1200));
        println!("VIOLATION property={} replay={}", chk.id(), p.display());
        rc = 1;
    }
    std::io::stdout().flush().ok();
    rc
}

fn write_evidence<C: Check>(
    chk: &C,
    tier: Tier,
    st: &Stats,
    fam_lines: &[String],
    violations: usize,
    timed_out: bool,
    wall: Duration,
    known: usize,
) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut cov = vec![
        format!("\"states\": {}", st.states),
        format!("\"transitions\": {}", st.transitions),
        format!("\"traces_validated_against_impl\": {}", st.cases),
        format!("\"distinct_outcomes\": {}", st.outcomes.len()),
        format!("\"capped_cases\": {}", st.capped),
        format!("\"exhaustive\": {}", !timed_out && st.capped == 0 && violations == 0),
        format!("\"known_findings_hit\": {known}"),
        format!("\"rule\": {}", esc(&chk.rule())),
        format!(
            "\"families\": [{}]",
            fam_lines.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")
        ),
        format!(
            "\"samples\": [{}]",
            st.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")
        ),
    ];
    for (k, v) in &st.counters {
        cov.push(format!("{}: {}", esc(k), v));
    }
    let s = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.3}}}\n",
        esc(chk.id()),
        esc(tier.name()),
        seed,
        cov.join(",\n  "),
        chk.assumptions().iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        violations,
        wall.as_secs_f64()
    );
    let dir = std::env::var("MC_EVIDENCE_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| verif_dir().join("evidence"));
    std::fs::create_dir_all(&dir).ok();
    let name = std::env::var("MC_EVIDENCE_NAME").unwrap_or_else(|_| chk.id().to_string());
    if let Err(e) = std::fs::write(dir.join(format!("{name}.json")), s) {
        eprintln!("cannot write evidence: {e}");
    }
}

struct Sup {
    dir: PathBuf,
}
impl Drop for Sup {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.dir).ok();
    }
}

fn wait_timeout(ch: &mut std::process::Child, d: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        if let Ok(Some(s)) = ch.try_wait() {
            return Some(s);
        }
        if t0.elapsed() > d {
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn supervise<C: Check>(chk: &C, tier: Tier) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", chk.id(), std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let sup = Sup { dir: dir.clone() };
    let t0 = Instant::now();
    let mut ch = std::process::Command::new(&exe)
        .args([chk.id(), "worker", tier.name(), dir.to_str().unwrap()])
        .spawn()
        .expect("cannot start worker");
    let nthreads = chk.threads();
    let mut last: Vec<([u8; 24], Instant)> = vec![([0; 24], Instant::now()); nthreads];
    let read_marker = |t: usize| -> [u8; 24] {
        let mut b = [0u8; 24];
        if let Ok(f) = std::fs::File::open(dir.join("marker")) {
            f.read_exact_at(&mut b, t as u64 * 24).ok();
        }
        b
    };
    let decode = |b: &[u8; 24]| -> (u64, u64) {
        (
            u64::from_le_bytes(b[8..16].try_into().unwrap()),
            u64::from_le_bytes(b[16..24].try_into().unwrap()),
        )
    };
    let mut hung: Option<usize> = None;
    let status = loop {
        if let Ok(Some(s)) = ch.try_wait() {
            break Some(s);
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_secs() < 3 { 20 } else { 200 }));
        for t in 0..nthreads {
            let b = read_marker(t);
            if b != last[t].0 {
                last[t] = (b, Instant::now());
            } else if decode(&b).0 != 0
                && last[t].1.elapsed() > Duration::from_secs(chk.case_timeout())
            {
                hung = Some(t);
            }
        }
        if hung.is_some() {
            ch.kill().ok();
            ch.wait().ok();
            break None;
        }
        if t0.elapsed() > budget() + Duration::from_secs(150) {
            // should have stopped itself long ago
            ch.kill().ok();
            ch.wait().ok();
            eprintln!("engine error: worker overran its budget");
            return 2;
        }
    };
    if let Some(s) = status {
        if let Some(code) = s.code() {
            if code == 0 || code == 1 || code == 2 {
                return code;
            }
        }
    }
    // The worker died or hung: re-run each in-flight case alone to find the culprit.
    eprintln!(
        "worker ended abnormally ({}); re-running the cases in flight one by one",
        match &status {
            Some(s) => format!("{s}"),
            None => "no progress".to_string(),
        }
    );
    let mut n = 0;
    for t in 0..nthreads {
        if hung.is_some() && hung != Some(t) {
            continue;
        }
        let (f, i) = decode(&read_marker(t));
        if f == 0 {
            continue;
        }
        let a = [
            chk.id().to_string(),
            "one".into(),
            tier.name().into(),
            (f - 1).to_string(),
            i.to_string(),
        ];
        let mut c = std::process::Command::new(&exe)
            .args(&a)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
            .unwrap();
        let r = wait_timeout(&mut c, Duration::from_secs(chk.case_timeout() * 3 / 2));
        let msg = match r {
            None => {
                c.kill().ok();
                c.wait().ok();
                Some(format!("the case does not terminate within {}s", chk.case_timeout() * 3 / 2))
            }
            Some(s) => match s.code() {
                Some(0) => None,
                Some(1) => Some("violation on re-run".to_string()),
                _ => Some(format!("the code under test crashed the process ({s})")),
            },
        };
        if let Some(msg) = msg {
            let mut a = a.to_vec();
            a.push("text".into());
            let o = std::process::Command::new(&exe).args(&a).output().unwrap();
            let o = String::from_utf8_lossy(&o.stdout).to_string();
            let (fam, case) = o.split_once('\n').unwrap_or(("?", "?"));
            let v = Viol { fam: fam.into(), case: case.trim().into(), msg };
            let p = write_replay(chk.id(), n, &v);
            n += 1;
            println!("  [{}] {}\n    {}", v.fam, short(&v.case, 600), v.msg);
            println!("VIOLATION property={} replay={}", chk.id(), p.display());
            let mut st = Stats::default();
            st.cases = 1;
            write_evidence(chk, tier, &st, &[], 1, true, t0.elapsed(), 0);
            if n >= 2 {
                break;
            }
        }
    }
    drop(sup);
    if n > 0 {
        1
    } else {
        eprintln!("engine error: worker died but no single case reproduces it");
        2
    }
}
