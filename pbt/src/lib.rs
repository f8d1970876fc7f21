//! A small choice-sequence property-based-testing engine (in the style of Hypothesis/minithesis).
//!
//! * Every random decision of a property goes through [`Src`], which records it as a bounded `u64` choice.
//! * A case is a pure function of (VERIF_SEED, property, test, case index).
//! * A failing case is shrunk on its choice sequence (delete blocks, zero blocks, lower values) and the
//!   minimal sequence is written as the replay file; `--replay FILE` re-runs exactly that case.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Debug, Clone)]
pub enum Fail {
    /// The case does not fall in the domain of the property
    Discard,
    /// `sig` identifies the specific failing behaviour (used by the known-findings file)
    Violation { sig: String, msg: String },
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Violation { sig: sig.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond { return Err($crate::Fail::Violation { sig: ($sig).to_string(), msg: format!($($arg)*) }); }
    };
}

#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::Fail::Violation { sig: ($sig).to_string(), msg: format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b) });
        }
    }};
}

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Src {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pos: usize,
    record: Vec<u64>,
    labels: BTreeMap<String, u64>,
    nontrivial: Vec<u64>,
    log: Vec<String>,
    keep_log: bool,
}

impl Src {
    fn random(seed: u64) -> Self {
        Src { rng: Rng(seed), replay: None, pos: 0, record: vec![], labels: BTreeMap::new(), nontrivial: vec![], log: vec![], keep_log: false }
    }

    /// The source of the i-th case of a test (as `Suite` runs it)
    pub fn case(seed: u64, property: &str, test: &str, i: u64) -> Self {
        let base = fnv(format!("{}/{}/{}", seed, property, test).as_bytes());
        Self::random(base ^ i.wrapping_mul(0xD1342543DE82EF95).rotate_left(17))
    }

    pub fn replay(choices: Vec<u64>) -> Self {
        let mut s = Self::random(0);
        s.replay = Some(choices);
        s
    }

    /// Uniform choice in `0..=max` (the single source of randomness)
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                if v > max { max } else { v }
            }
            None => {
                let r = self.rng.next();
                if max == u64::MAX { r } else { ((r as u128 * (max as u128 + 1)) >> 64) as u64 }
            }
        };
        self.pos += 1;
        self.record.push(v);
        v
    }

    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        self.draw(n as u64 - 1) as usize
    }

    /// Inclusive range
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.draw(hi - lo) }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize { self.range(lo as u64, hi as u64) as usize }
    pub fn bool(&mut self) -> bool { self.draw(1) == 1 }
    /// true with probability `num/den` (shrinks to false)
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.draw(den - 1) >= den - num }
    pub fn choose<'a, T>(&mut self, s: &'a [T]) -> &'a T { let i = self.below(s.len()); &s[i] }
    pub fn pick<T: Clone>(&mut self, s: &[T]) -> T { self.choose(s).clone() }

    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.draw(total - 1);
        for (i, x) in w.iter().enumerate() {
            if v < *x { return i; }
            v -= *x;
        }
        unreachable!()
    }

    pub fn u64(&mut self) -> u64 { self.draw(u64::MAX) }
    pub fn u8(&mut self) -> u8 { self.draw(255) as u8 }

    /// A u64 biased to magnitudes and boundaries
    pub fn u64_edge(&mut self) -> u64 {
        match self.weighted(&[4, 2, 2, 1]) {
            0 => { let b = self.range(1, 63); let m = (1u64 << b) - 1; self.draw(m) }
            1 => { let b = self.range(0, 63); (1u64 << b).wrapping_add(self.range(0, 2)).wrapping_sub(1) }
            2 => self.u64(),
            _ => u64::MAX - self.range(0, 3),
        }
    }

    pub fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut out = [0u8; N];
        for c in out.chunks_mut(8) {
            let l = c.len();
            let m = if l == 8 { u64::MAX } else { (1u64 << (8 * l)) - 1 };
            let v = self.draw(m);
            c.copy_from_slice(&v.to_le_bytes()[..l]);
        }
        out
    }

    pub fn vec_u8(&mut self, len: usize) -> Vec<u8> {
        let mut out = vec![0u8; len];
        for c in out.chunks_mut(8) {
            let l = c.len();
            let m = if l == 8 { u64::MAX } else { (1u64 << (8 * l)) - 1 };
            let v = self.draw(m);
            c.copy_from_slice(&v.to_le_bytes()[..l]);
        }
        out
    }

    /// A random permutation of 0..n
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.below(n - i);
            v.swap(i, j);
        }
        v
    }

    pub fn label(&mut self, l: impl Into<String>) { *self.labels.entry(l.into()).or_insert(0) += 1; }
    /// Marks the case as non-trivial; `h` distinguishes cases
    pub fn nontrivial(&mut self, h: u64) { self.nontrivial.push(h); }
    pub fn log(&mut self, f: impl FnOnce() -> String) { if self.keep_log && self.log.len() < 400 { let s = f(); self.log.push(s); } }
    pub fn choices_hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for v in &self.record { for b in v.to_le_bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } }
        h
    }
}

type TestFn = Box<dyn Fn(&mut Src) -> Res + Send + Sync>;

struct Test { name: &'static str, quick: u64, thorough: u64, threads: usize, f: TestFn }

pub struct Suite {
    property: &'static str,
    rule: &'static str,
    assumptions: Vec<String>,
    tests: Vec<Test>,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None);
    static QUIET: Cell<u32> = Cell::new(0);
}

/// Runs f, converting a panic into Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    install_hook();
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

fn install_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let default = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if QUIET.with(|q| q.get()) > 0 {
                PANIC_MSG.with(|m| *m.borrow_mut() = Some(format!("{info}")));
            } else {
                default(info)
            }
        }));
    });
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o
}

struct Outcome { src: Src, res: Result<(), Fail> }

fn run_one(f: &TestFn, mut src: Src) -> Outcome {
    let r = guard(|| f(&mut src));
    let res = match r {
        Ok(r) => r,
        Err(p) => Err(Fail::Violation { sig: "panic".into(), msg: format!("panic: {p}") }),
    };
    Outcome { src, res }
}

fn violation_sig(r: &Result<(), Fail>) -> Option<&str> {
    match r { Err(Fail::Violation { sig, .. }) => Some(sig), _ => None }
}

/// Shrinks a failing choice sequence, keeping the same signature
fn shrink(f: &TestFn, start: Vec<u64>, sig: &str) -> Vec<u64> {
    let t0 = Instant::now();
    let mut best = start;
    let budget_s = std::env::var("VERIF_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(40u64);
    let mut attempts = 0u64;
    let mut try_it = |cand: Vec<u64>, best: &mut Vec<u64>| -> bool {
        attempts += 1;
        let o = run_one(f, Src::replay(cand));
        if violation_sig(&o.res) == Some(sig) {
            let mut rec = o.src.record;
            while rec.last() == Some(&0) { rec.pop(); }
            let better = rec.len() < best.len() || (rec.len() == best.len() && rec < *best);
            if better { *best = rec; }
            better
        } else { false }
    };
    let out_of_time = || t0.elapsed().as_secs() > budget_s;
    loop {
        let before = best.clone();
        // delete blocks
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = best.len();
            while i > 0 {
                if out_of_time() { return best; }
                let lo = i.saturating_sub(k);
                if i > best.len() { i = best.len(); continue; }
                let mut c = best[..lo].to_vec();
                c.extend_from_slice(&best[i..]);
                // also try decrementing the preceding choice (a length)
                if !try_it(c.clone(), &mut best) && lo > 0 && c[lo - 1] > 0 {
                    c[lo - 1] -= 1;
                    try_it(c, &mut best);
                }
                i = lo;
            }
            if k == 1 { break; }
            k /= 2;
        }
        // zero blocks, then lower values
        let mut k = 8usize;
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                if out_of_time() { return best; }
                let hi = (i + k).min(best.len());
                if best[i..hi].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    for v in &mut c[i..hi] { *v = 0; }
                    try_it(c, &mut best);
                }
                i += k;
            }
            k /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            if out_of_time() { return best; }
            // binary search for a small value
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && i < best.len() {
                if out_of_time() { return best; }
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if try_it(c, &mut best) { hi = mid; } else { lo = mid + 1; }
            }
            i += 1;
        }
        if best == before { return best; }
    }
}

struct Known { test: String, sig: String, text: String }

/// known-findings.txt: lines `finding: property=<id> test=<test> sig=<signature> -- <what fails>` (and `fixed: ...`, which are ignored)
fn load_known(property: &str) -> Vec<Known> {
    let path = root().join("known-findings.txt");
    let mut out = vec![];
    for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let Some(rest) = line.strip_prefix("finding: ") else { continue };
        let (head, text) = rest.split_once(" -- ").unwrap_or((rest, ""));
        let mut p = ""; let mut t = ""; let mut s = "";
        for kv in head.split_whitespace() {
            if let Some(v) = kv.strip_prefix("property=") { p = v }
            if let Some(v) = kv.strip_prefix("test=") { t = v }
            if let Some(v) = kv.strip_prefix("sig=") { s = v }
        }
        if p == property { out.push(Known { test: t.into(), sig: s.into(), text: text.into() }); }
    }
    out
}

/// Seed, tier and scale of this run
pub fn options() -> (u64, String, f64) {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    (
        get("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1),
        get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into()),
        get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
    )
}

pub fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

impl Suite {
    pub fn new(property: &'static str, rule: &'static str) -> Self {
        Suite { property, rule, assumptions: vec![], tests: vec![] }
    }
    pub fn assume(mut self, a: &str) -> Self { self.assumptions.push(a.into()); self }
    pub fn test(self, name: &'static str, quick: u64, thorough: u64, f: impl Fn(&mut Src) -> Res + Send + Sync + 'static) -> Self {
        self.test_t(name, quick, thorough, 8, f)
    }
    pub fn test_t(mut self, name: &'static str, quick: u64, thorough: u64, threads: usize, f: impl Fn(&mut Src) -> Res + Send + Sync + 'static) -> Self {
        self.tests.push(Test { name, quick, thorough, threads, f: Box::new(f) });
        self
    }

    pub fn main(self) -> ! {
        let code = self.run();
        std::process::exit(code)
    }

    fn run(self) -> i32 {
        install_hook();
        // large buffers are reused instead of being mapped for each case
        extern "C" { fn mallopt(param: i32, value: i32) -> i32; }
        unsafe { mallopt(-3, 30 << 20); mallopt(-1, i32::MAX); }
        let args: Vec<String> = std::env::args().collect();
        let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
        let (seed, tier, scale) = options();
        let only = get("--test");
        if let Some(file) = get("--replay") { return self.replay_file(&file); }
        let t0 = Instant::now();
        let known = load_known(self.property);
        let mut known_hit: Vec<u64> = vec![0; known.len()];

        let mut evals = 0u64;
        let mut discards = 0u64;
        let mut distinct: HashSet<u64> = HashSet::new();
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut samples: Vec<String> = vec![];
        let mut per_test: Vec<String> = vec![];
        let mut violation: Option<(String, String)> = None; // (replay path, message)

        for test in &self.tests {
            if let Some(o) = &only { if o != test.name { continue; } }
            let n = ((if tier == "thorough" { test.thorough } else { test.quick }) as f64 * scale).ceil() as u64;
            let tt = Instant::now();
            let next = AtomicU64::new(0);
            let min_fail = AtomicU64::new(u64::MAX);
            struct Acc { evals: u64, discards: u64, distinct: HashSet<u64>, labels: BTreeMap<String, u64>, samples: Vec<(u64, String)>, fails: Vec<(u64, Vec<u64>, String, String)>, known: Vec<u64> }
            let accs: Mutex<Vec<Acc>> = Mutex::new(vec![]);
            let base = fnv(format!("{}/{}/{}", seed, self.property, test.name).as_bytes());
            std::thread::scope(|s| {
                for _ in 0..test.threads {
                    let (next, min_fail, accs, known, property) = (&next, &min_fail, &accs, &known, self.property);
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                        let mut acc = Acc { evals: 0, discards: 0, distinct: HashSet::new(), labels: BTreeMap::new(), samples: vec![], fails: vec![], known: vec![0; known.len()] };
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n || i > min_fail.load(Ordering::SeqCst) { break; }
                            let mut src = Src::case(seed, property, test.name, i);
                            src.keep_log = i < 6;
                            let o = run_one(&test.f, src);
                            acc.evals += 1;
                            for (k, v) in &o.src.labels { *acc.labels.entry(k.clone()).or_insert(0) += v; }
                            match &o.res {
                                Ok(()) => {
                                    if !o.src.nontrivial.is_empty() && o.src.keep_log {
                                        acc.samples.push((i, format!("case {i}: {}", o.src.log.join("; "))));
                                    }
                                    for h in &o.src.nontrivial { acc.distinct.insert(*h ^ base); }
                                }
                                Err(Fail::Discard) => acc.discards += 1,
                                Err(Fail::Violation { sig, msg }) => {
                                    if let Some(k) = known.iter().position(|k| k.test == test.name && k.sig == *sig) {
                                        acc.known[k] += 1;
                                    } else {
                                        min_fail.fetch_min(i, Ordering::SeqCst);
                                        acc.fails.push((i, o.src.record, sig.clone(), msg.clone()));
                                    }
                                }
                            }
                        }
                        accs.lock().unwrap().push(acc);
                    }).unwrap();
                }
            });
            let mut test_samples = vec![];
            let mut fails = vec![];
            let (mut te, mut td, mut tn) = (0, 0, 0);
            for a in accs.into_inner().unwrap() {
                te += a.evals;
                td += a.discards;
                for h in a.distinct { if distinct.insert(h) { tn += 1; } }
                for (k, v) in a.labels { *labels.entry(format!("{}:{}", test.name, k)).or_insert(0) += v; }
                test_samples.extend(a.samples);
                fails.extend(a.fails);
                for (i, v) in a.known.iter().enumerate() { known_hit[i] += v; }
            }
            evals += te;
            discards += td;
            test_samples.sort();
            for (_, s) in test_samples.into_iter().take(2) {
                let mut s = format!("[{}] {}", test.name, s);
                if s.len() > 900 { let mut c = 900; while !s.is_char_boundary(c) { c -= 1; } s.truncate(c); s.push_str("..."); }
                samples.push(s);
            }
            per_test.push(format!("{}: {} cases, {} discarded, {} distinct non-trivial, {:.1}s", test.name, te, td, tn, tt.elapsed().as_secs_f64()));
            eprintln!("[{}] {}", self.property, per_test.last().unwrap());
            fails.sort_by_key(|f| f.0);
            if let Some((i, choices, sig, msg)) = fails.into_iter().next() {
                eprintln!("[{}] {} case {} failed ({}): {}", self.property, test.name, i, sig, msg);
                let min = shrink(&test.f, choices, &sig);
                let mut src = Src::replay(min.clone());
                src.keep_log = true;
                let o = run_one(&test.f, src);
                let msg = match &o.res { Err(Fail::Violation { msg, .. }) => msg.clone(), _ => msg };
                let dir = root().join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let path = dir.join(format!("{}-{}.replay", self.property, test.name));
                let mut body = format!("property={}\ntest={}\nseed={}\ncase={}\nsig={}\nchoices={}\n", self.property, test.name, seed, i, sig,
                    min.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
                let _ = write!(body, "message={}\n", msg.replace('\n', " "));
                for l in &o.src.log { let _ = write!(body, "# {}\n", l.replace('\n', " ")); }
                std::fs::write(&path, body).expect("write replay");
                eprintln!("[{}] minimal reproduction ({} choices): {}", self.property, min.len(), msg);
                violation = Some((path.display().to_string(), msg));
                break;
            }
        }

        for (k, c) in known.iter().zip(&known_hit) {
            // a finding is announced when it is still observed
            if *c > 0 || only.is_some() { println!("KNOWN-FINDING: property={} test={} sig={} {} ({} cases)", self.property, k.test, k.sig, k.text, c); }
            else { println!("note: listed finding {} was not observed in this run", k.sig); }
        }

        self.write_evidence(seed, &tier, evals, discards, distinct.len(), &samples, &labels, &per_test, t0.elapsed().as_secs_f64(), &known, &known_hit, violation.as_ref());
        if let Some((path, _)) = violation {
            println!("VIOLATION property={} replay={}", self.property, path);
            return 1;
        }
        println!("OK property={} cases={} nontrivial={} wall={:.1}s", self.property, evals, distinct.len(), t0.elapsed().as_secs_f64());
        0
    }

    fn replay_file(&self, file: &str) -> i32 {
        let body = std::fs::read_to_string(file).expect("replay file");
        let field = |k: &str| body.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
        let name = field("test");
        let choices: Vec<u64> = field("choices").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        let t = self.tests.iter().find(|t| t.name == name).expect("test of replay file");
        let mut src = Src::replay(choices);
        src.keep_log = true;
        let o = run_one(&t.f, src);
        for l in &o.src.log { println!("  {l}"); }
        match o.res {
            Err(Fail::Violation { sig, msg }) => { println!("{sig}: {msg}"); println!("VIOLATION property={} replay={}", self.property, file); 1 }
            r => { println!("replay result: {r:?}"); 0 }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn write_evidence(&self, seed: u64, tier: &str, evals: u64, discards: u64, nontrivial: usize, samples: &[String], labels: &BTreeMap<String, u64>, per_test: &[String], wall: f64, known: &[Known], known_hit: &[u64], violation: Option<&(String, String)>) {
        let list = |v: &[String]| v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ");
        let mut assumptions = self.assumptions.clone();
        assumptions.push(format!("per test: {}", per_test.join(" | ")));
        assumptions.push(format!("class counts: {}", labels.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(", ")));
        if discards > 0 { assumptions.push(format!("{discards} generated cases fell outside of the domain and were discarded")); }
        for (k, c) in known.iter().zip(known_hit) { assumptions.push(format!("known finding {} excluded {} cases", k.sig, c)); }
        let mut s = String::new();
        let _ = write!(s, "{{\n  \"property\": \"{}\",\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"exploration\",\n", self.property, if tier == "thorough" { "thorough" } else { "quick" }, seed);
        let _ = write!(s, "  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": \"{}\",\n    \"samples\": [{}]\n  }},\n", evals, nontrivial, esc(self.rule), list(samples));
        let _ = write!(s, "  \"wall_s\": {:.2},\n  \"assumptions\": [{}]", wall, list(&assumptions));
        let _ = write!(s, ",\n  \"violations\": {}", violation.is_some() as u8);
        s.push_str("\n}\n");
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.property)), s).expect("write evidence");
    }
}
