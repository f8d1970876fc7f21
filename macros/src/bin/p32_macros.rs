//! P32: the derive and account macros implement each declaration.
//! The declarations of all cases are generated first and compiled at once (with /repo's macros); one met later
//! (while shrinking or replaying) is compiled on its own.
use macros::*;
use pbt::*;
use std::collections::HashMap;
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};

const QUICK: u64 = 160;
const THOROUGH: u64 = 2_000;
/// Declarations per compilation
const CHUNK: usize = 40;

type Built = Result<(PathBuf, usize), String>;

struct Compiler { known: HashMap<u64, Built>, dir: PathBuf, crate_dir: PathBuf, next: usize }

impl Compiler {
    fn new() -> Self {
        let target = std::env::var("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|_| root().join("target/macros"));
        let crate_dir = std::env::var("P32_CRATE").map(PathBuf::from).unwrap_or_else(|_| root().join("macros/declarations"));
        let dir = target.join("p32");
        std::fs::create_dir_all(&dir).unwrap();
        Compiler { known: HashMap::new(), dir, crate_dir, next: 0 }
    }

    /// Compiles a collection; Err: output of the compiler
    fn build(&mut self, programs: &[&Program]) -> Result<PathBuf, String> {
        let k = self.next;
        self.next += 1;
        let bin = self.dir.join(format!("declarations{k}"));
        compile(&self.dir, &self.crate_dir, k, "target", programs, &bin).map(|_| bin)
    }

    /// Compiles declarations, isolating those which are rejected
    fn add(&mut self, programs: &[&Program]) {
        match self.build(programs) {
            Ok(bin) => for (i, p) in programs.iter().enumerate() { self.known.insert(id(p), Ok((bin.clone(), i))); },
            Err(e) if programs.len() == 1 => { self.known.insert(id(programs[0]), Err(e)); }
            Err(_) => {
                let (l, r) = programs.split_at(programs.len() / 2);
                self.add(l);
                // a few rejected ones suffice
                if self.known.values().filter(|b| b.is_err()).count() < 3 { self.add(r); }
            }
        }
    }

    fn get(&mut self, p: &Program) -> Built {
        if !self.known.contains_key(&id(p)) { self.add(&[p]); }
        self.known[&id(p)].clone()
    }
}

fn compile(dir: &PathBuf, crate_dir: &PathBuf, k: usize, target: &str, programs: &[&Program], bin: &PathBuf) -> Result<(), String> {
    let file = dir.join(format!("declarations{k}.rs"));
    std::fs::write(&file, collection(programs)).unwrap();
    // (the first collection is the empty one, with which the dependencies are built)
    let limit = if k == 0 { 500 } else { 40 + programs.len() * 2 };
    let o = Command::new("timeout").args(["-k", "5", &limit.to_string(), "cargo", "build", "--offline", "--locked"]).current_dir(crate_dir)
        .env("CARGO_TARGET_DIR", dir.join(target)).env("P32_DECLARATIONS", &file).output().expect("cargo");
    if o.status.code() == Some(124) { return Err("error: the compilation does not terminate".into()); }
    if !o.status.success() { return Err(String::from_utf8_lossy(&o.stderr).into()); }
    std::fs::copy(dir.join(target).join("debug/declarations"), bin).unwrap();
    Ok(())
}

fn id(p: &Program) -> u64 { fnv(source(p).as_bytes()) }

/// What an answer has to be
enum Want { Is(String), Refused, Process { record: Option<Vec<Rec>> } }
/// Parts of the record of the processor
enum Rec { Text(String), Key(usize), Head(usize), Children(Vec<Option<usize>>) }

struct Lines { text: Vec<String>, want: Vec<(&'static str, Want)> }
impl Lines {
    fn ask(&mut self, what: &'static str, line: String, want: Want) { self.text.push(line); self.want.push((what, want)) }
    fn is(&mut self, what: &'static str, line: String, want: impl ToString) { self.ask(what, line, Want::Is(want.to_string())) }
}

fn types(p: &Program, s: &mut Src, l: &mut Lines) {
    for i in 0..p.types.len() {
        let t = p.decl_ty(i);
        l.is("size of a type", format!("size {i}"), p.size(&t));
        for _ in 0..2 {
            let v = p.value(&t, s);
            l.is("encoding of a type", format!("exact {i} {}", hex(&v)), format!("ok {}", hex(&v)));
            l.ask("decoding of a truncated value", format!("exact {i} {}", hex(&v[..s.below(v.len())])), Want::Refused);
            let n = s.usize(1, 3);
            let tail = s.vec_u8(n);
            l.ask("decoding with further bytes", format!("exact {i} {}", hex(&[v.clone(), tail].concat())), Want::Refused);
            if let Decl::Enum(vars) = &p.types[i] {
                let n = s.below(20);
                let tail = s.vec_u8(n);
                l.is("decoding of an enum from a larger buffer", format!("partial {i} {}", hex(&[v.clone(), tail].concat())), format!("ok {} {}", v[0], hex(&v)));
                let mut w = v.clone();
                w[0] = s.range(vars.len() as u64, 255) as u8;
                l.ask("unknown variant", format!("exact {i} {}", hex(&w)), Want::Refused);
            }
        }
    }
}

/// An account: its bytes and, per field, the part of them which is significant
fn account(p: &Program, s: &mut Src, a: &Account) -> (Vec<u8>, Vec<Vec<u8>>) {
    let mut d = s.vec_u8(2);
    let mut parts = vec![];
    for f in &a.fields {
        let v = match &f.kind { Kind::One(t) => p.value(t, s), Kind::Many(t, n) => (0..*n).flat_map(|_| p.value(t, s)).collect(), Kind::Lazy(n) => s.vec_u8(*n) };
        d.extend(&v);
        let rest = s.vec_u8(p.field_size(f) - v.len());
        d.extend(rest);
        parts.push(v);
    }
    (d, parts)
}
fn other_size(s: &mut Src, d: &[u8]) -> Vec<u8> {
    let mut d = d.to_vec();
    match s.below(4) { 0 => { d.pop(); } 1 => d.push(s.u8()), 2 => { let n = s.below(d.len()); d.truncate(n) } _ => { let n = s.usize(1, 40); d.extend(s.vec_u8(n)) } }
    d
}

fn accounts(p: &Program, s: &mut Src, l: &mut Lines) {
    for (i, a) in p.accounts.iter().enumerate() {
        let (d, parts) = account(p, s, a);
        l.is("size of an account", format!("account_size {i}"), p.account_size(a));
        l.is("account over its bytes", format!("new {i} {}", hex(&d)), true);
        l.is("account over another number of bytes", format!("new {i} {}", hex(&other_size(s, &d))), false);
        let mut at = 2;
        for (k, f) in a.fields.iter().enumerate() {
            let (n, size) = match &f.kind { Kind::Many(t, n) => (*n, p.size(t)), _ => (1, p.field_size(f)) };
            let j = s.below(n);
            let here = at + j * size..at + (j + 1) * size;
            if f.get || matches!(f.kind, Kind::Lazy(_)) {
                l.is("read of a field", format!("get {i} {} {k} {j}", hex(&d)), hex(&d[here.clone()]));
                if n > 1 { l.ask("read beyond an array", format!("get {i} {} {k} {}", hex(&d), n + s.below(3)), Want::Refused); }
            }
            if f.set || matches!(f.kind, Kind::Lazy(_)) {
                let v = match &f.kind { Kind::One(t) | Kind::Many(t, _) => p.value(t, s), Kind::Lazy(n) => s.vec_u8(*n) };
                let mut e = d.clone();
                e[here.start..here.start + v.len()].copy_from_slice(&v);
                l.is("write of a field", format!("set {i} {} {k} {j} {}", hex(&d), hex(&v)), hex(&e));
                if n > 1 { l.ask("write beyond an array", format!("set {i} {} {k} {} {}", hex(&d), n + s.below(3), hex(&v)), Want::Refused); }
            }
            at += n * size;
        }
        if a.eager {
            let mut e = d[..2].to_vec();
            for (f, v) in a.fields.iter().zip(&parts) { if let Kind::Lazy(n) = f.kind { e.extend((n as u32).to_le_bytes()); } e.extend(v); }
            l.is("eager representation", format!("eager {i} {}", hex(&d)), format!("ok {}", hex(&e)));
            l.is("eager representation of another number of bytes", format!("eager {i} {}", hex(&other_size(s, &d))), "err");
        }
        if let Some(n) = a.children {
            let list: String = (0..n).map(|k| { let x = &parts[0][33 * k..]; if x[0] == 1 { format!("+{}", hex(&x[1..33])) } else { "+".into() } }).collect();
            l.is("children of an account", format!("pubkeys {i} {}", hex(&d)), format!("{list} {list} {n}"));
        }
        if a.computation {
            let n = |k: usize| u32::from_le_bytes(parts[k][..4].try_into().unwrap());
            l.is("instruction and round", format!("computation {i} {}", hex(&d)), format!("{} {}", n(0), n(1)));
        }
        for _ in 0..2 {
            let key = s.bool().then(|| raw_key(s));
            let off = offset(s);
            l.is("address", format!("pda {i} {} {} {}", key.as_deref().unwrap_or("-"), off.map_or("-".into(), |o| o.to_string()), p.pda(i, key.as_deref(), off)), true);
        }
    }
}
fn offset(s: &mut Src) -> Option<u32> { match s.below(4) { 0 => None, 1 => Some(s.below(3) as u32), _ => Some(s.u64() as u32) } }

/// An account passed to the program
#[derive(Clone, Debug)]
struct Given { key: String, signer: bool, writable: bool, owner: String, mode: char, data: Vec<u8> }
impl Given { fn text(&self) -> String { format!("{}/{}/{}/{}/{}{}", self.key, self.signer as u8, self.writable as u8, self.owner, self.mode, hex(&self.data)) } }

struct Call { fields: Vec<Vec<u8>>, key: Option<String>, off: Option<u32>, small: Option<u32> }
impl Call {
    fn new(p: &Program, v: &Variant, s: &mut Src) -> Self {
        let mut c = Call { fields: vec![], key: None, off: None, small: None };
        for (n, t) in v.all_fields() {
            let x = p.value(&t, s);
            match n.as_str() { "key" => c.key = Some(format!("u{}", hex(&x))), "off" => c.off = Some(u32::from_le_bytes(x[..].try_into().unwrap())), "small" => c.small = Some(x[0] as u32), _ => {} }
            c.fields.push(x);
        }
        c
    }
    /// address demanded for an account
    fn pda(&self, p: &Program, a: &Attr, users: &dyn Fn(usize) -> String) -> String {
        let Acc::Pda(t) = a.acc else { unreachable!() };
        let key = match a.by { By::None => None, By::Field => self.key.clone(), By::Account(i) => Some(users(i)) };
        let off = match a.off { Off::None => None, Off::Field => self.off, Off::Fixed(n) => Some(n), Off::Small => self.small };
        p.pda(t, key.as_deref(), off)
    }
}

/// Outcome of a call: None if outside of the model, Some(None) if it has to be refused
fn model(p: &Program, v: &Variant, c: &Call, list: &[Given]) -> Option<Option<Vec<Rec>>> {
    let mut at = 0;
    let mut used = vec![];
    let mut record = vec![Rec::Text(v.name.clone())];
    for a in &v.attrs {
        let k = at;
        let Some(g) = list.get(k) else { return Some(None) };
        at += 1;
        used.push(k);
        if a.signer && !g.signer || a.owned && g.owner != "I" { return Some(None) }
        match &a.acc {
            Acc::User => {}
            Acc::Sys(own) => if g.key != if *own { "K" } else { "S" } { return Some(None) },
            Acc::Pda(t) => {
                let users = |i: usize| list[used[i]].key.clone();
                if a.by != By::None || !a.skip { if let By::Account(i) = a.by { if !users(i).starts_with('u') { return None } } }
                let want = if a.skip { g.key.clone() } else { c.pda(p, a, &users) };
                if g.key != want { return Some(None) }
                if !a.skip && !a.find {
                    if g.data.is_empty() { return Some(None) }
                    // (the address without key and offset is known, its bump is not needed)
                    if a.by != By::None || a.off != Off::None { match g.mode { '*' => {} '~' => return Some(None), _ => return None } }
                }
                if !a.info {
                    let acc = &p.accounts[*t];
                    if g.data.len() != p.account_size(acc) { return Some(None) }
                    record.push(Rec::Head(k));
                    if a.kids {
                        let n = acc.children.unwrap();
                        let keys: Vec<Option<String>> = (0..n).map(|i| { let x = &g.data[2 + 33 * i..]; (x[0] == 1).then(|| format!("u{}", hex(&x[1..33]))) }).collect();
                        let mut found = vec![None; n];
                        let mut next = 0;
                        while let Some(x) = list.get(at) {
                            let Some(i) = (next..n).find(|i| keys[*i].as_ref() == Some(&x.key)) else { break };
                            if x.owner != "I" || a.writable && !x.writable { return Some(None) }
                            found[i] = Some(at);
                            next = i + 1;
                            at += 1;
                        }
                        // children which do not directly follow
                        if list[at..].iter().any(|x| keys[next..].contains(&Some(x.key.clone()))) { return None }
                        record.push(Rec::Children(found));
                    }
                    continue;
                }
                if a.skip { record.push(Rec::Text("unverified true".into())) }
            }
        }
        if !a.ignore { record.push(Rec::Key(k)) }
    }
    for f in &c.fields { record.push(Rec::Text(hex(f))) }
    Some(Some(record))
}

fn instructions(p: &Program, s: &mut Src, l: &mut Lines) -> bool {
    let mut rich = false;
    l.is("identifier of the program", "id".into(), true);
    for (k, v) in p.ix.iter().enumerate() {
        l.is("index of an instruction", format!("index {k}"), k);
        build(p, s, l, k, v);
        for round in 0..6 {
            let c = Call::new(p, v, s);
            let mut data = [vec![k as u8], c.fields.concat()].concat();
            let mut list: Vec<Given> = vec![];
            let mut parents = vec![];
            let mut used: Vec<usize> = vec![];
            for a in &v.attrs {
                let mut g = Given { key: String::new(), signer: a.signer || s.chance(1, 4), writable: a.writable || s.chance(1, 4), owner: s.pick(&["I", "S"]).into(), mode: '=', data: vec![] };
                if a.owned { g.owner = "I".into() }
                let mut kids = vec![];
                match &a.acc {
                    Acc::User => { g.key = raw_key(s); let n = s.below(4); g.data = s.vec_u8(n) }
                    Acc::Sys(own) => g.key = if *own { "K" } else { "S" }.into(),
                    Acc::Pda(t) => {
                        g.key = if a.skip { raw_key(s) } else { c.pda(p, a, &|i| list[used[i]].key.clone()) };
                        g.mode = '*';
                        let acc = &p.accounts[*t];
                        let (mut d, parts) = account(p, s, acc);
                        if a.info { let n = s.usize(1, d.len()); d.truncate(n); }
                        g.data = d;
                        if a.kids {
                            for i in 0..acc.children.unwrap() {
                                let x = &parts[0][33 * i..];
                                if x[0] == 1 && s.chance(3, 4) { kids.push(Given { key: format!("u{}", hex(&x[1..33])), signer: s.bool(), writable: a.writable || s.bool(), owner: "I".into(), mode: '=', data: vec![1, 2] }) }
                            }
                        }
                    }
                }
                used.push(list.len());
                list.push(g);
                if a.kids { parents.push((list.len(), kids.len())); list.extend(kids) }
            }
            let n = list.len();
            let mut bad_data = false;
            if round > 1 {
                for _ in 0..s.usize(1, 2) {
                    match s.below(14) {
                        0 => { list.pop(); }
                        1 if !list.is_empty() => { let i = s.below(list.len()); list.remove(i); }
                        2 if !list.is_empty() => { let i = s.below(list.len()); list[i].signer = false }
                        3 if !list.is_empty() => { let i = s.below(list.len()); list[i].owner = s.pick(&["S", "K"]).into() }
                        4 if !list.is_empty() => { let i = s.below(list.len()); list[i].writable = false }
                        // another address of the same account, with the right bump
                        5 | 6 => {
                            let pdas: Vec<usize> = (0..v.attrs.len()).filter(|i| matches!(v.attrs[*i].acc, Acc::Pda(_)) && !v.attrs[*i].skip && used[*i] < list.len()).collect();
                            if !pdas.is_empty() {
                                let j = s.pick(&pdas);
                                let Acc::Pda(t) = v.attrs[j].acc else { unreachable!() };
                                let key = match s.below(4) { 0 => None, 1 => c.key.clone(), 2 => v.attrs.iter().position(|a| a.acc == Acc::User).and_then(|i| list.get(used[i])).map(|g| g.key.clone()).filter(|k| k.starts_with('u')), _ => Some(raw_key(s)) };
                                let off = match s.below(4) { 0 => None, 1 => c.off, 2 => c.small, _ => Some(s.below(4) as u32) };
                                let t = if s.chance(1, 4) { 1 - t } else { t };
                                list[used[j]].key = match s.below(4) { 0 => raw_key(s), 1 => "S".into(), _ => p.pda(t, key.as_deref(), off) };
                                // an account with that address may have no data
                                if s.chance(1, 3) { list[used[j]].data.truncate(s.below(3)); list[used[j]].owner = "S".into() }
                            }
                        }
                        7 => if let Some(g) = pick(s, &mut list, |g| g.mode == '*') { g.mode = '~' },
                        8 => if let Some(i) = list.iter().position(|g| g.mode == '*') { if !list[i].data.is_empty() { list[i].data = if s.chance(1, 4) { vec![] } else { other_size(s, &list[i].data.clone()) } } },
                        9 => { let i = s.below(list.len() + 1); let d = s.vec_u8(2); let key = if s.bool() { raw_key(s) } else { "S".into() }; list.insert(if s.bool() { i } else { list.len() }, Given { key, signer: true, writable: true, owner: "I".into(), mode: '=', data: d }) }
                        10 if list.len() > 1 => { let (i, j) = (s.below(list.len()), s.below(list.len())); list.swap(i, j) }
                        11 | 12 => if let Some((at, m)) = parents.first() { if *m > 0 && list.len() == n { let i = at + s.below(*m); match s.below(4) { 0 => list[i].owner = "S".into(), 1 => list[i].writable = false, 2 => { let g = list[*at].clone(); list.insert(i + 1, g) } _ => { let j = at + s.below(*m); list.swap(i, j) } } } },
                        _ => {
                            bad_data = true;
                            match s.below(3) { 0 => data[0] = s.range(p.ix.len() as u64, 255) as u8, 1 => data.push(s.u8()), _ => { data.pop(); } }
                            break;
                        }
                    }
                }
            }
            // (an account whose first byte was cut has no bump)
            for g in &mut list { if g.mode != '=' && g.data.is_empty() { g.mode = '=' } }
            let record = if bad_data { Some(None) } else { model(p, v, &c, &list) };
            let Some(record) = record else { continue };
            if record.is_some() && v.attrs.iter().any(|a| matches!(a.acc, Acc::Pda(_))) { rich = true }
            if round > 1 && record.is_none() { s.label("call refused") }
            let text = format!("process {} {}", hex(&data), list.iter().map(|g| g.text()).collect::<Vec<_>>().join(" "));
            l.ask("call of an instruction", text.trim_end().into(), Want::Process { record });
        }
    }
    rich
}
fn pick<'a>(s: &mut Src, list: &'a mut [Given], f: impl Fn(&Given) -> bool) -> Option<&'a mut Given> {
    let c: Vec<usize> = (0..list.len()).filter(|i| f(&list[*i])).collect();
    if c.is_empty() { return None }
    let i = s.pick(&c);
    Some(&mut list[i])
}

fn build(p: &Program, s: &mut Src, l: &mut Lines, k: usize, v: &Variant) {
    let c = Call::new(p, v, s);
    let (mut keys, mut metas): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let mut users: HashMap<usize, String> = HashMap::new();
    for (j, a) in v.attrs.iter().enumerate() {
        let flags = format!("/{}/{}", a.signer as u8, a.writable as u8);
        match &a.acc {
            Acc::User => { let x = raw_key(s); users.insert(j, x.clone()); keys.push(x.clone()); metas.push(x + &flags) }
            Acc::Sys(own) => metas.push(format!("{}{flags}", if *own { "K" } else { "S" })),
            Acc::Pda(t) if a.skip_abi => {
                let key = (a.by != By::None).then(|| raw_key(s));
                if let Some(x) = &key { keys.push(x.clone()) }
                let off = offset(s);
                let mut b = vec![0; 32];
                if let Some(o) = off { b[..4].copy_from_slice(&o.to_le_bytes()); b[4] = 1 }
                keys.push(format!("u{}", hex(&b)));
                metas.push(p.pda(*t, key.as_deref(), off) + &flags);
            }
            Acc::Pda(_) => metas.push(c.pda(p, a, &|i| users[&i].clone()) + &flags),
        }
        if a.kids { for _ in 0..2 { let x = raw_key(s); keys.push(x.clone()); metas.push(x + &flags) } }
    }
    let mut t = vec!["build".to_string(), k.to_string()];
    t.extend(c.fields.iter().map(|f| hex(f)));
    t.push(";".into());
    t.extend(keys);
    t.push(";".into());
    t.extend(metas);
    l.is("construction of an instruction", t.join(" "), format!("true {} true", hex(&[vec![k as u8], c.fields.concat()].concat())));
}

fn main() {
    let (seed, tier, scale) = options();
    let mut c = Compiler::new();
    if !std::env::args().any(|a| a == "--replay") {
        // the macros of /repo have to build: the empty collection
        if let Err(e) = c.build(&[]) {
            eprintln!("{e}\nBUILD-FAILED the macros did not build");
            std::process::exit(2);
        }
        let n = ((if tier == "thorough" { THOROUGH } else { QUICK }) as f64 * scale).ceil() as u64;
        let programs: Vec<Program> = (0..n).map(|i| generate(&mut Src::case(seed, "P32", "declarations", i))).collect();
        for chunk in programs.chunks(CHUNK) { c.add(&chunk.iter().collect::<Vec<_>>()); }
    }
    let c = Arc::new(Mutex::new(c));
    Suite::new("P32", "a call of an instruction with a program account is accepted and its record compared (distinct declarations and calls)")
        .assume("declarations within the documented syntax: value types of fixed and variable size (nested structs, enums, generics, options, arrays), accounts with single, array and lazy fields, children, computations, instructions with every kind and flag of accounts")
        .assume("children of a parent account directly follow it in the order of their indices, or do not follow at all")
        .test("declarations", QUICK, THOROUGH, move |s| {
            let p = generate(s);
            let built = c.lock().unwrap().get(&p);
            s.log(|| format!("declarations {}", source(&p)));
            let (bin, k) = match built {
                Ok(b) => b,
                Err(e) => {
                    let e: Vec<&str> = e.lines().filter(|l| l.contains("error") || l.contains("message") || l.contains("panicked")).take(4).collect();
                    return fail("rejected", format!("a valid declaration is rejected: {}", e.join(" / ")));
                }
            };
            let mut l = Lines { text: vec![], want: vec![] };
            let mut rich = false;
            for _ in 0..s.usize(1, 4) {
                types(&p, s, &mut l);
                accounts(&p, s, &mut l);
                rich |= instructions(&p, s, &mut l);
            }
            let mut child = Command::new("timeout").arg("20").arg(&bin).arg(k.to_string()).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("declarations");
            let mut input = child.stdin.take().unwrap();
            let text = l.text.join("\n") + "\n";
            let writer = std::thread::spawn(move || { let _ = input.write_all(text.as_bytes()); });
            let o = child.wait_with_output().expect("declarations");
            writer.join().unwrap();
            let text = String::from_utf8_lossy(&o.stdout).to_string();
            let answers: Vec<&str> = text.lines().collect();
            check_eq!(answers.len(), l.want.len(), "answers", "answers of the declarations ({:?})", o.status);
            for ((line, (what, want)), got) in l.text.iter().zip(&l.want).zip(answers) {
                s.label(*what);
                match want {
                    Want::Is(w) => check_eq!(got, w, *what, "{what}: {line}"),
                    Want::Refused => check!(!got.starts_with("ok") && (got == "err" || got == "panic"), *what, "{what}: {line}: not refused but {got}"),
                    Want::Process { record } => {
                        let parts: Vec<&str> = got.split(" | ").collect();
                        check_eq!(parts.len(), 3, *what, "{line}: {got}");
                        let keys: Vec<(&str, &str)> = parts[1].split(' ').filter(|x| !x.is_empty()).map(|x| x.split_once('/').unwrap()).collect();
                        match record {
                            None => check!(parts[0] != "ok" && parts[2].is_empty(), "call accepted", "{line}: a call with improper accounts or data is processed: {got}"),
                            Some(r) => {
                                let w: Vec<String> = r.iter().map(|r| match r {
                                    Rec::Text(t) => t.clone(),
                                    Rec::Key(i) => format!("k{}", keys[*i].0),
                                    Rec::Head(i) => keys[*i].1.to_string(),
                                    Rec::Children(c) => c.iter().map(|c| match c { Some(i) => format!("+{}", keys[*i].0), None => "+".into() }).collect(),
                                }).collect();
                                check_eq!(parts[0], "ok", "call refused", "{line}: a proper call is not accepted");
                                check_eq!(parts[2], w.join(" "), "call record", "{line}: instruction, accounts and fields which reach the processor");
                                s.label("call accepted");
                            }
                        }
                    }
                }
            }
            if rich { s.nontrivial(id(&p) ^ fnv(l.text.join("\n").as_bytes())); }
            Ok(())
        })
        .main()
}
