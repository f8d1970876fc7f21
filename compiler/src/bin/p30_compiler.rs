//! P30: the computation compiler preserves the meaning of each program.
//! The programs of all cases are generated first and compiled at once (with /repo's macro); a program met later
//! (while shrinking or replaying) is compiled on its own.
use compiler::*;
use pbt::*;
use std::collections::HashMap;
use std::path::PathBuf;
use std::process::Command;
use std::sync::{Arc, Mutex};

const QUICK: u64 = 700;
const THOROUGH: u64 = 14_000;
/// Programs per compilation
const CHUNK: usize = 350;

type Built = Result<(PathBuf, usize), String>;

struct Compiler { known: HashMap<u64, Built>, dir: PathBuf, crate_dir: PathBuf, next: usize }

impl Compiler {
    fn new() -> Self {
        let target = std::env::var("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|_| root().join("target/compiler"));
        let crate_dir = std::env::var("P30_CRATE").map(PathBuf::from).unwrap_or_else(|_| root().join("compiler/programs"));
        let dir = target.join("p30");
        std::fs::create_dir_all(&dir).unwrap();
        Compiler { known: HashMap::new(), dir, crate_dir, next: 0 }
    }

    /// Compiles a collection; Err: output of the compiler
    fn build(&mut self, programs: &[&Program]) -> Result<PathBuf, String> {
        let k = self.next;
        self.next += 1;
        let file = self.dir.join(format!("programs{k}.rs"));
        std::fs::write(&file, collection(programs)).unwrap();
        // (the first collection is the empty one, with which the dependencies are built)
        let limit = if k == 0 { 400 } else { 20 + programs.len() * 2 / 5 };
        let o = Command::new("timeout").args(["-k", "5", &limit.to_string(), "cargo", "build", "--offline", "--locked"]).current_dir(&self.crate_dir)
            .env("CARGO_TARGET_DIR", self.dir.join("target")).env("P30_PROGRAMS", &file).output().expect("cargo");
        if o.status.code() == Some(124) { return Err("error: the compilation does not terminate".into()); }
        if !o.status.success() { return Err(String::from_utf8_lossy(&o.stderr).into()); }
        let bin = self.dir.join(format!("programs{k}"));
        std::fs::copy(self.dir.join("target/debug/programs"), &bin).unwrap();
        Ok(bin)
    }

    /// Compiles programs, isolating those which are rejected
    fn add(&mut self, programs: &[&Program]) {
        match self.build(programs) {
            Ok(bin) => for (i, p) in programs.iter().enumerate() { self.known.insert(id(p), Ok((bin.clone(), i))); },
            Err(e) if programs.len() == 1 => { self.known.insert(id(programs[0]), Err(e)); }
            Err(_) => {
                let (l, r) = programs.split_at(programs.len() / 2);
                self.add(l);
                // a few rejected programs suffice
                if self.known.values().filter(|b| b.is_err()).count() < 3 { self.add(r); }
            }
        }
    }

    fn get(&mut self, p: &Program) -> Built {
        if !self.known.contains_key(&id(p)) { self.add(&[p]); }
        self.known[&id(p)].clone()
    }
}

fn id(p: &Program) -> u64 { fnv(source(p).as_bytes()) }

fn main() {
    let (seed, tier, scale) = options();
    let mut c = Compiler::new();
    if !std::env::args().any(|a| a == "--replay") {
        // the compiler of /repo has to build: the empty collection
        if let Err(e) = c.build(&[]) {
            eprintln!("{e}\nBUILD-FAILED the compiler did not build");
            std::process::exit(2);
        }
        let n = ((if tier == "thorough" { THOROUGH } else { QUICK }) as f64 * scale).ceil() as u64;
        let programs: Vec<Program> = (0..n).map(|i| generate(&mut Src::case(seed, "P30", "programs", i))).collect();
        for chunk in programs.chunks(CHUNK) { c.add(&chunk.iter().collect::<Vec<_>>()); }
    }
    let c = Arc::new(Mutex::new(c));
    Suite::new("P30", "the program has a loop, a partial call or a condition over parts, and a value is kept from one part to another (distinct programs and inputs)")
        .assume("programs within the documented syntax and its documented limits: no declaration of a kept variable in a loop or condition, no change of a condition or argument during the part that relies on it; a variable assigned in a scope is also used there")
        .assume("two types of values (in separate memories), state and arguments of the caller by value, reference and mutable reference; memory with arbitrary former content")
        .test("programs", QUICK, THOROUGH, move |s| {
            let p = generate(s);
            let built = c.lock().unwrap().get(&p);
            s.log(|| format!("program {}", source(&p)));
            let (bin, k) = match built {
                Ok(b) => b,
                Err(e) => {
                    let e: Vec<&str> = e.lines().filter(|l| l.contains("error") || l.contains("message") || l.contains("panicked")).take(4).collect();
                    return fail("rejected", format!("a valid program is rejected: {}", e.join(" / ")));
                }
            };
            let n = s.usize(1, 4);
            let mut args = vec![k.to_string()];
            let mut inputs = vec![];
            for _ in 0..n {
                let v: Vec<u64> = (0..4).map(|_| if s.bool() { s.range(0, 9) } else { s.u64() }).collect();
                args.extend(v.iter().map(|x| x.to_string()));
                args.push(s.u64().to_string());
                inputs.push(v);
            }
            let o = Command::new("timeout").arg("20").arg(&bin).args(&args).output().expect("program");
            let text = String::from_utf8_lossy(&o.stdout).to_string();
            let runs: Vec<Vec<&str>> = text.split("input\n").skip(1).map(|r| r.lines().collect()).collect();
            check_eq!(runs.len(), n, "runs", "runs of the program ({:?})", o.status);
            let main = p.funs.last().unwrap();
            let (cus, rounds) = (cus(&p.funs, main), fun_rounds(&p.funs, main));
            let ixs = instructions(&cus, p.budget);
            let per_tx = 1_400_000 / p.budget;
            let consts = format!("consts {rounds} {rounds} {} {} {} {ixs:?}", cus.iter().sum::<u64>(), p.budget, (ixs.len() as u64 + per_tx - 1) / per_tx);
            let sh = shape(&p);
            for (run, v) in runs.iter().zip(&inputs) {
                check_eq!(run.first().copied().unwrap_or(""), consts, "plan", "rounds, total rounds, compute units, budget, transactions, rounds of the instructions");
                let (e, conds) = expected(&p, v[0], v[1], v[2], v[3]);
                s.log(|| format!("input {v:?}: {e:?}"));
                for (r, line) in e.iter().enumerate() {
                    check_eq!(run.get(r + 1).copied().unwrap_or("(nothing)"), line, "meaning", "outcome, state and memory frames after round {r} for {v:?}");
                }
                check_eq!(run.len() - 1, e.len(), "rounds", "rounds performed for {v:?}");
                if e.last().unwrap().starts_with("error") { s.label("fails") } else { s.label("returns") }
                if conds.contains(&true) { s.label("condition true") }
                if conds.contains(&false) { s.label("condition false") }
                if sh.stored > 0 && sh.calls + sh.fors + sh.ifs > 0 { s.nontrivial(id(&p) ^ fnv(format!("{v:?}").as_bytes())); }
            }
            if sh.calls > 0 { s.label("calls") }
            if sh.fors > 0 { s.label("loops") }
            if sh.ifs > 0 { s.label("conditions over parts") }
            if p.funs.len() > 2 { s.label("nested calls possible") }
            Ok(())
        })
        .main()
}
