//! Random programs of the `elusiv_computations!` language: generation, printing and direct execution.
use pbt::Src;
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write as _;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum T { A, B }
impl T {
    fn name(self) -> &'static str { match self { T::A => "Na", T::B => "Nb" } }
    fn other(self) -> T { match self { T::A => T::B, T::B => T::A } }
}

#[derive(Clone, Debug)]
pub enum E {
    Var(String),
    Deref(String),
    /// x (type A) and y (type B) of the state parameter
    Field(T),
    Lit(T, u64),
    One(T),
    /// index (usize) or element of a for-loop
    Index(T, String),
    Elem(T, String),
    Bin(char, Box<E>, Box<E>),
    Paren(Box<E>),
    Meth(&'static str, String, Vec<E>),
    Convert(T, Box<E>),
    /// unwrap a.quot(e)
    Quot(String, Box<E>),
}

#[derive(Clone, Debug)]
pub enum C {
    Cmp(char, E, E),
    /// loop index or element compared with a literal
    Loop(String, char, u64),
    Not(Box<C>),
}

#[derive(Clone, Debug)]
pub enum S {
    Let { name: String, mutable: bool, ty: T, e: E },
    Assign(String, E),
    SetField(T, E),
    Bump(E),
    If(C, Vec<S>, Option<Vec<S>>, bool),
    Return(E),
}

#[derive(Clone, Debug)]
pub enum Cu { Fixed(u64), Callee(usize), Mapping(String, Vec<(Option<u64>, Box<Cu>)>), Zero(usize) }

#[derive(Clone, Debug)]
pub struct Call { v: String, f: usize, args: Vec<E>, body: Vec<S>, semi: bool }

#[derive(Clone, Debug)]
pub enum Branch { Call(Call), Stmts(Vec<S>), If(C, Box<Branch>, Option<Box<Branch>>) }

#[derive(Clone, Debug)]
pub enum Part {
    Group(Cu, Vec<S>),
    Call(Call),
    For { i: String, x: String, arr: Vec<u64>, body: Vec<Part> },
    If(Cu, Branch),
}

#[derive(Clone, Debug)]
pub enum Scope { Plain(u64, Vec<S>), Parts(Vec<Part>), Cond(Cu, Branch) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Par { Val(T), Ref(T) }

#[derive(Clone, Debug)]
pub struct Fun { params: Vec<(String, Par)>, ret: T, scopes: Vec<Scope> }

#[derive(Clone, Debug)]
pub struct Program { pub funs: Vec<Fun>, pub budget: u64 }

// ---------------------------------------------------------------- generation

#[derive(Clone, Debug)]
struct V { name: String, ty: T, scope: usize, mutable: bool }

struct G<'a> {
    s: &'a mut Src,
    /// 0 (small) to 4
    size: usize,
    funs: Vec<Fun>,
    names: usize,
    params: Vec<(String, Par)>,
    /// declared at the top level of a scope
    vars: Vec<V>,
    /// blocks of local variables
    locals: Vec<Vec<V>>,
    loops: Vec<(String, String, Vec<u64>)>,
    scope: usize,
    used: BTreeSet<String>,
    /// variables and fields which cannot be changed at the moment (conditions and arguments rely on them)
    frozen: Vec<String>,
    field_free: bool,
}

const OPS: [char; 3] = ['+', '-', '*'];

impl<'a> G<'a> {
    fn fresh(&mut self, p: &str) -> String { self.names += 1; format!("{p}{}", self.names) }

    fn visible(&self, ty: T) -> Vec<String> {
        self.vars.iter().chain(self.locals.iter().flatten()).filter(|v| v.ty == ty).map(|v| v.name.clone()).collect()
    }

    fn atom(&mut self, ty: T) -> E {
        let vars = self.visible(ty);
        let vals: Vec<String> = self.params.iter().filter(|p| p.1 == Par::Val(ty)).map(|p| p.0.clone()).collect();
        let refs: Vec<String> = self.params.iter().filter(|p| p.1 == Par::Ref(ty)).map(|p| p.0.clone()).collect();
        match self.s.weighted(&[2, 14, 3, 3, 2, 3, 1]) {
            1 if !vars.is_empty() => { let v = self.s.pick(&vars); self.used.insert(v.clone()); E::Var(v) }
            2 if !vals.is_empty() => E::Var(self.s.pick(&vals)),
            3 if !refs.is_empty() => E::Deref(self.s.pick(&refs)),
            4 if self.field_free => E::Field(ty),
            5 if !self.loops.is_empty() => {
                let k = self.s.below(self.loops.len());
                let (i, x, _) = self.loops[k].clone();
                if self.s.bool() { E::Index(ty, i) } else { E::Elem(ty, x) }
            }
            6 => E::One(ty),
            _ => E::Lit(ty, self.s.range(0, 9)),
        }
    }

    fn expr(&mut self, ty: T, depth: usize) -> E {
        if depth == 0 { return self.atom(ty); }
        match self.s.weighted(&[3, 6, 1, 1, 1]) {
            1 => {
                let op = self.s.pick(&['+', '-', '*', '+', '-']);
                let (l, r) = (self.expr(ty, depth - 1), self.expr(ty, depth - 1));
                E::Bin(op, Box::new(l), Box::new(r))
            }
            2 => E::Paren(Box::new(self.expr(ty, depth - 1))),
            3 => {
                let mut vars = self.visible(ty);
                vars.extend(self.params.iter().filter(|p| p.1 == Par::Val(ty) || p.1 == Par::Ref(ty)).map(|p| p.0.clone()));
                if vars.is_empty() { return self.atom(ty); }
                let v = self.s.pick(&vars);
                self.used.insert(v.clone());
                if self.s.bool() { E::Meth("double", v, vec![]) } else { let e = self.expr(ty, depth - 1); E::Meth("mix", v, vec![e]) }
            }
            4 => { let e = self.expr(ty.other(), depth - 1); E::Convert(ty, Box::new(e)) }
            _ => self.atom(ty),
        }
    }

    /// Right-hand side of a declaration or an assignment
    fn value(&mut self, ty: T) -> E {
        let depth = self.s.usize(0, 2.min(1 + self.size));
        if self.s.chance(1, 30) {
            let vars = self.visible(ty);
            if !vars.is_empty() {
                let v = self.s.pick(&vars);
                self.used.insert(v.clone());
                let e = self.expr(ty, depth.min(1));
                return E::Quot(v, Box::new(e));
            }
        }
        self.expr(ty, depth)
    }

    fn cond(&mut self) -> C {
        if !self.loops.is_empty() && self.s.bool() {
            let (i, x, arr) = self.loops[self.s.below(self.loops.len())].clone();
            let op = self.s.pick(&['=', '<', '>']);
            return if self.s.bool() { C::Loop(i, op, self.s.draw(arr.len() as u64 - 1)) } else { C::Loop(x, op, self.s.range(0, 3)) };
        }
        if self.s.chance(1, 6) { return C::Not(Box::new(self.cond())); }
        let ty = self.s.pick(&[T::A, T::B]);
        let d = self.s.usize(0, 2);
        let op = self.s.pick(&['=', '<', '>']);
        C::Cmp(op, self.expr(ty, d), self.expr(ty, d.min(1)))
    }

    fn freeze(&mut self, c: &C) -> usize {
        let n = self.frozen.len();
        let mut v = vec![];
        cond_vars(c, &mut v);
        self.frozen.extend(v);
        n
    }

    fn assign(&mut self) -> Option<S> {
        let scope = self.scope;
        let frozen = self.frozen.clone();
        let vars: Vec<V> = self.vars.iter().chain(self.locals.iter().flatten()).filter(|v| (v.scope != scope || v.mutable) && !frozen.contains(&v.name)).cloned().collect();
        if vars.is_empty() { return None; }
        let kept: Vec<V> = vars.iter().filter(|v| v.scope != scope).cloned().collect();
        let v = if !kept.is_empty() && self.s.bool() { self.s.pick(&kept) } else { self.s.pick(&vars) };
        let used = self.used.clone();
        let mut e = self.value(v.ty);
        // a variable is only loaded where it is used
        if v.scope != scope && !self.used.contains(&v.name) {
            e = match e {
                E::Quot(..) => { self.used = used; E::Var(v.name.clone()) }
                e => E::Bin(self.s.pick(&OPS), Box::new(E::Var(v.name.clone())), Box::new(e)),
            };
            self.used.insert(v.name.clone());
        }
        Some(S::Assign(v.name, e))
    }

    fn stmt(&mut self, depth: usize, lets: bool, top: bool) -> S {
        loop {
            match self.s.weighted(&[1, 6, if top { 6 } else { 2 }, 1, 4]) {
                1 => if let Some(a) = self.assign() { return a; },
                2 if lets => {
                    let ty = self.s.pick(&[T::A, T::B]);
                    let e = self.value(ty);
                    let v = V { name: self.fresh("v"), ty, scope: self.scope, mutable: self.s.bool() };
                    let st = S::Let { name: v.name.clone(), mutable: v.mutable, ty, e };
                    if top { self.vars.push(v) } else { self.locals.last_mut().unwrap().push(v) }
                    return st;
                }
                3 if depth > 0 => {
                    let c = self.cond();
                    let n = self.freeze(&c);
                    let t = self.block(1, 3, depth - 1);
                    let f = if self.s.bool() { Some(self.block(1, 3, depth - 1)) } else { None };
                    self.frozen.truncate(n);
                    return S::If(c, t, f, self.s.bool());
                }
                4 if self.field_free => { let e = self.expr(T::A, 1); return S::Bump(e); }
                0 | 4 if self.field_free => { let ty = self.s.pick(&[T::A, T::B]); let e = self.value(ty); return S::SetField(ty, e); }
                _ => if let Some(a) = self.assign() { return a; } else if lets {
                    let ty = self.s.pick(&[T::A, T::B]);
                    let e = self.atom(ty);
                    let v = V { name: self.fresh("v"), ty, scope: self.scope, mutable: false };
                    let st = S::Let { name: v.name.clone(), mutable: false, ty, e };
                    if top { self.vars.push(v) } else { self.locals.last_mut().unwrap().push(v) }
                    return st;
                },
            }
        }
    }

    fn block(&mut self, lo: usize, hi: usize, depth: usize) -> Vec<S> {
        self.locals.push(vec![]);
        let n = self.s.usize(lo, hi);
        let v = (0..n).map(|_| self.stmt(depth, true, false)).collect();
        self.locals.pop();
        v
    }

    fn cu(&mut self) -> u64 { match self.s.weighted(&[4, 2, 1]) { 0 => self.s.range(1, 40) * 1000, 1 => self.s.range(0, 9), _ => self.s.range(40, 120) * 1000 } }

    fn call(&mut self, f: usize) -> Call {
        let (free, frozen) = (self.field_free, self.frozen.len());
        // the arguments are evaluated for every part of the call
        self.field_free = false;
        let pars: Vec<Par> = self.funs[f].params.iter().map(|p| p.1).collect();
        let args: Vec<E> = pars.iter().map(|p| match p {
            Par::Val(t) | Par::Ref(t) => { let d = self.s.usize(0, 1); self.expr(*t, d) }
        }).collect();
        self.field_free = free;
        let v = self.fresh("r");
        self.locals.push(vec![V { name: v.clone(), ty: self.funs[f].ret, scope: self.scope, mutable: false }]);
        let body = self.block(1, 3, 1);
        self.locals.pop();
        self.frozen.truncate(frozen);
        Call { v, f, args, body, semi: self.s.bool() }
    }

    fn branch(&mut self, f: usize) -> Branch {
        let free = self.field_free;
        self.field_free = false;
        let c = self.cond();
        self.field_free = free;
        let n = self.freeze(&c);
        let t = Branch::Call(self.call(f));
        let e = match self.s.below(3) {
            0 => None,
            1 => Some(Box::new(Branch::Call(self.call(f)))),
            _ => Some(Box::new(Branch::Stmts(self.block(1, 2, 1)))),
        };
        self.frozen.truncate(n);
        if self.s.chance(1, 4) {
            let free = self.field_free;
            self.field_free = false;
            let c2 = self.cond();
            self.field_free = free;
            // generated afterwards: it must not rely on what the branches change
            let mut vs = vec![];
            cond_vars(&c2, &mut vs);
            let inner = Branch::If(c, Box::new(t), e);
            let mut ch = BTreeSet::new();
            branch_assigns(&inner, &mut ch);
            if vs.iter().all(|v| !ch.contains(v)) { return Branch::If(c2, Box::new(inner), None); }
            return inner;
        }
        Branch::If(c, Box::new(t), e)
    }

    fn mapping(&mut self, f: Option<usize>) -> Option<Cu> {
        let (i, x, arr) = self.loops.last()?.clone();
        let name = if self.s.bool() { i } else { x };
        let n = self.s.usize(0, 2);
        let mut m: Vec<(Option<u64>, Box<Cu>)> = vec![];
        for _ in 0..n {
            let k = self.s.range(0, arr.len() as u64 - 1);
            if m.iter().any(|p| p.0 == Some(k)) { continue; }
            let c = match f { Some(f) => if self.s.bool() { Cu::Zero(f) } else { Cu::Callee(f) }, None => Cu::Fixed(self.cu()) };
            m.push((Some(k), Box::new(c)));
        }
        let c = match f { Some(f) => Cu::Callee(f), None => Cu::Fixed(self.cu()) };
        m.push((None, Box::new(c)));
        Some(Cu::Mapping(name, m))
    }

    fn part(&mut self, depth: usize, room: usize) -> Part {
        let fs: Vec<usize> = (0..self.funs.len()).filter(|f| fun_rounds(&self.funs, &self.funs[*f]) <= room).collect();
        match self.s.weighted(&[4, 4, 3, 2]) {
            1 if !fs.is_empty() => { let f = self.s.pick(&fs); Part::Call(self.call(f)) }
            2 if depth > 0 && room > 1 => {
                let (i, x) = (self.fresh("i"), self.fresh("x"));
                let n = self.s.usize(1, 4.min(room));
                let arr: Vec<u64> = (0..n).map(|_| self.s.range(0, 3)).collect();
                self.loops.push((i.clone(), x.clone(), arr.clone()));
                let body = self.parts(depth - 1, room / n, 3);
                self.loops.pop();
                Part::For { i, x, arr, body }
            }
            3 if !fs.is_empty() => {
                let f = self.s.pick(&fs);
                let b = self.branch(f);
                let cu = if self.s.bool() { self.mapping(Some(f)) } else { None };
                Part::If(cu.unwrap_or(Cu::Callee(f)), b)
            }
            _ => {
                let cu = if self.s.chance(1, 3) { self.mapping(None) } else { None };
                let cu = match cu { Some(c) => c, None => Cu::Fixed(self.cu()) };
                Part::Group(cu, self.block(1, 3, 1))
            }
        }
    }

    fn parts(&mut self, depth: usize, room: usize, max: usize) -> Vec<Part> {
        let mut room = room;
        let n = self.s.usize(1, max.min(room));
        let mut v = vec![];
        for k in 0..n {
            // leaves one round for each of the following
            let p = self.part(depth, room - (n - 1 - k).min(room - 1));
            room = room.saturating_sub(parts_rounds(&self.funs, std::slice::from_ref(&p)));
            v.push(p);
            if room == 0 { break; }
        }
        v
    }

    fn fun(&mut self, main: bool) -> Fun {
        self.vars.clear();
        self.names = 0;
        self.params = if main { vec![("a".into(), Par::Val(T::A)), ("b".into(), Par::Val(T::B))] } else {
            let n = self.s.usize(0, 3);
            (0..n).map(|k| { let t = self.s.pick(&[T::A, T::B]); (format!("q{k}"), if self.s.bool() { Par::Val(t) } else { Par::Ref(t) }) }).collect()
        };
        let ret = self.s.pick(&[T::A, T::B]);
        let mut room = if main { 4 + 19 * self.size } else { 2 + 3 * self.size };
        let n = if main { self.s.usize(0, 3 + self.size) } else { self.s.usize(0, 3.min(1 + self.size)) };
        let mut scopes = vec![];
        for k in 0..n {
            if room < 2 { break; }
            self.scope = k;
            self.used.clear();
            let fs: Vec<usize> = (0..self.funs.len()).filter(|f| fun_rounds(&self.funs, &self.funs[*f]) < room).collect();
            let sc = match self.s.weighted(&[if k == 0 { 20 } else { 5 }, 5, 1]) {
                1 => Scope::Parts(self.parts(2, room - 1, 4)),
                2 if !fs.is_empty() => { let f = self.s.pick(&fs); let b = self.branch(f); Scope::Cond(Cu::Callee(f), b) }
                _ => {
                    let c = self.cu();
                    let m = self.s.usize(1, if k == 0 { 6 } else { 4 });
                    self.locals.push(vec![]);
                    let v = (0..m).map(|_| self.stmt(1, true, true)).collect();
                    self.locals.pop();
                    Scope::Plain(c, v)
                }
            };
            room -= scope_rounds(&self.funs, &sc).min(room);
            scopes.push(sc);
            // variables which are not used any more
            if self.vars.len() > 1 && self.s.chance(1, 3) {
                for _ in 0..self.s.usize(1, 2.min(self.vars.len() - 1)) { let i = self.s.below(self.vars.len()); self.vars.remove(i); }
            }
        }
        // the last scope returns
        self.scope = scopes.len();
        self.used.clear();
        let fs: Vec<usize> = (0..self.funs.len()).filter(|f| fun_rounds(&self.funs, &self.funs[*f]) <= room.max(1)).collect();
        let last = match self.s.weighted(&[5, 2, 2, 1]) {
            1 if !fs.is_empty() => {
                let f = self.s.pick(&fs);
                let mut c = self.call(f);
                let r = V { name: c.v.clone(), ty: self.funs[f].ret, scope: self.scope, mutable: false };
                self.locals.push(vec![r]);
                let e = self.value(ret);
                self.locals.pop();
                c.body.push(S::Return(e));
                Scope::Parts(vec![Part::Call(c)])
            }
            2 if room > 2 => {
                let mut p = self.parts(1, room - 1, 2);
                let cu = self.cu();
                let mut b = if self.s.bool() { self.block(1, 2, 1) } else { vec![] };
                b.push(S::Return(self.value(ret)));
                p.push(Part::Group(Cu::Fixed(cu), b));
                Scope::Parts(p)
            }
            3 => {
                let cu = self.cu();
                let c = self.cond();
                let (t, f) = (self.value(ret), self.value(ret));
                Scope::Plain(cu, vec![S::If(c, vec![S::Return(t)], Some(vec![S::Return(f)]), false)])
            }
            _ => {
                let cu = self.cu();
                let mut b = if self.s.bool() { self.block(1, 2, 1) } else { vec![] };
                let mut e = self.value(ret);
                if self.s.bool() && !matches!(e, E::Quot(..)) {
                    for v in self.vars.iter().rev() {
                        self.used.insert(v.name.clone());
                        let x = E::Var(v.name.clone());
                        let x = if v.ty == ret { x } else { E::Convert(ret, Box::new(x)) };
                        e = E::Bin('+', Box::new(E::Bin('*', Box::new(e), Box::new(E::Lit(ret, 3)))), Box::new(x));
                    }
                }
                b.push(S::Return(e));
                Scope::Plain(cu, b)
            }
        };
        scopes.push(last);
        Fun { params: self.params.clone(), ret, scopes }
    }
}

pub fn generate(s: &mut Src) -> Program {
    let size = s.weighted(&[1, 1, 2, 3, 3]);
    let n = s.usize(0, size.min(3));
    let mut g = G { s, size, funs: vec![], names: 0, params: vec![], vars: vec![], locals: vec![], loops: vec![], scope: 0, used: BTreeSet::new(), frozen: vec![], field_free: true };
    for k in 0..=n { let f = g.fun(k == n); g.funs.push(f); }
    let max = cus(&g.funs, g.funs.last().unwrap()).into_iter().max().unwrap();
    // 10,000 units are kept in reserve
    let budget = (max + 10_000 + [0, 1, 5_000, 60_000, 200_000][g.s.below(5)]).max(12_000);
    Program { funs: g.funs, budget }
}

fn expr_vars(e: &E, v: &mut Vec<String>) {
    match e {
        E::Var(n) | E::Deref(n) => v.push(n.clone()),
        E::Bin(_, l, r) => { expr_vars(l, v); expr_vars(r, v) }
        E::Paren(e) | E::Convert(_, e) => expr_vars(e, v),
        E::Meth(_, n, a) => { v.push(n.clone()); for e in a { expr_vars(e, v) } }
        E::Quot(n, e) => { v.push(n.clone()); expr_vars(e, v) }
        _ => (),
    }
}
fn cond_vars(c: &C, v: &mut Vec<String>) {
    match c { C::Cmp(_, l, r) => { expr_vars(l, v); expr_vars(r, v) } C::Loop(..) => (), C::Not(c) => cond_vars(c, v) }
}
fn assigns(s: &[S], o: &mut BTreeSet<String>) {
    for s in s { match s {
        S::Assign(n, _) => { o.insert(n.clone()); }
        S::If(_, t, f, _) => { assigns(t, o); if let Some(f) = f { assigns(f, o) } }
        _ => (),
    } }
}
fn branch_assigns(b: &Branch, o: &mut BTreeSet<String>) {
    match b {
        Branch::Call(c) => assigns(&c.body, o),
        Branch::Stmts(s) => assigns(s, o),
        Branch::If(_, t, f) => { branch_assigns(t, o); if let Some(f) = f { branch_assigns(f, o) } }
    }
}

// ---------------------------------------------------------------- rounds and compute units

fn branch_rounds(fs: &[Fun], b: &Branch) -> usize {
    match b {
        Branch::Call(c) => fun_rounds(fs, &fs[c.f]),
        Branch::Stmts(_) => 1,
        Branch::If(_, t, f) => branch_rounds(fs, t).max(f.as_ref().map_or(1, |f| branch_rounds(fs, f))),
    }
}
fn part_rounds(fs: &[Fun], p: &Part) -> usize {
    match p {
        Part::Group(..) => 1,
        Part::Call(c) => fun_rounds(fs, &fs[c.f]),
        Part::For { arr, body, .. } => arr.len() * parts_rounds(fs, body),
        Part::If(_, b) => branch_rounds(fs, b),
    }
}
fn parts_rounds(fs: &[Fun], p: &[Part]) -> usize { p.iter().map(|p| part_rounds(fs, p)).sum() }
fn scope_rounds(fs: &[Fun], s: &Scope) -> usize {
    match s { Scope::Plain(..) => 1, Scope::Parts(p) => parts_rounds(fs, p), Scope::Cond(_, b) => branch_rounds(fs, b) }
}
pub fn fun_rounds(fs: &[Fun], f: &Fun) -> usize { f.scopes.iter().map(|s| scope_rounds(fs, s)).sum() }

fn cu_list(fs: &[Fun], c: &Cu, loops: &[(String, u64)]) -> Vec<u64> {
    match c {
        Cu::Fixed(c) => vec![*c],
        Cu::Callee(f) => cus(fs, &fs[*f]),
        Cu::Zero(f) => vec![0; fun_rounds(fs, &fs[*f])],
        Cu::Mapping(n, m) => {
            let v = loops.iter().rev().find(|l| l.0 == *n).unwrap().1;
            let c = m.iter().find(|p| p.0.map_or(true, |k| k == v)).unwrap();
            cu_list(fs, &c.1, loops)
        }
    }
}
fn part_cus(fs: &[Fun], p: &Part, loops: &mut Vec<(String, u64)>, out: &mut Vec<u64>) {
    match p {
        Part::Group(c, _) | Part::If(c, _) => out.extend(cu_list(fs, c, loops)),
        Part::Call(c) => out.extend(cus(fs, &fs[c.f])),
        Part::For { i, x, arr, body } => for (k, v) in arr.iter().enumerate() {
            let n = loops.len();
            loops.push((i.clone(), k as u64));
            loops.push((x.clone(), *v));
            for p in body { part_cus(fs, p, loops, out) }
            loops.truncate(n);
        },
    }
}
/// Declared compute units of each round
pub fn cus(fs: &[Fun], f: &Fun) -> Vec<u64> {
    let mut out = vec![];
    for s in &f.scopes { match s {
        Scope::Plain(c, _) => out.push(*c),
        Scope::Parts(ps) => for p in ps { part_cus(fs, p, &mut vec![], &mut out) },
        Scope::Cond(c, _) => out.extend(cu_list(fs, c, &[])),
    } }
    out
}

// ---------------------------------------------------------------- printing

fn prec(e: &E) -> u8 { match e { E::Bin('*', ..) => 2, E::Bin(..) => 1, _ => 3 } }

fn low(t: T) -> char { match t { T::A => 'a', T::B => 'b' } }

pub fn show(e: &E) -> String {
    match e {
        E::Var(n) => n.clone(),
        E::Deref(n) => format!("*{n}"),
        E::Field(T::A) => "p.x".into(),
        E::Field(T::B) => "p.y".into(),
        E::Lit(t, v) => format!("n{}({v})", low(*t)),
        E::One(t) => format!("{}::one()", t.name()),
        E::Index(t, i) => format!("index_{}({i})", low(*t)),
        E::Elem(t, x) => format!("n{}({x})", low(*t)),
        E::Bin(op, l, r) => {
            let p = prec(e);
            let l = if prec(l) < p { format!("({})", show(l)) } else { show(l) };
            let r = if prec(r) <= p { format!("({})", show(r)) } else { show(r) };
            format!("{l} {op} {r}")
        }
        E::Paren(e) => format!("({})", show(e)),
        E::Meth(m, n, a) => format!("{n}.{m}({})", a.iter().map(show).collect::<Vec<_>>().join(", ")),
        E::Convert(t, e) => format!("from_{}({})", low(t.other()), show(e)),
        E::Quot(n, e) => format!("unwrap {n}.quot({})", show(e)),
    }
}
fn show_cond(c: &C) -> String {
    match c {
        C::Cmp(op, l, r) => format!("{} {op} {}", show(l), show(r)),
        C::Loop(n, op, v) => format!("{n} {op} {v}"),
        C::Not(c) => format!("!({})", show_cond(c)),
    }
}
fn show_stmts(s: &[S], ind: &str, o: &mut String) {
    let deep = format!("{ind}    ");
    for s in s { match s {
        S::Let { name, mutable, ty, e } => { let _ = writeln!(o, "{ind}let {}{name}: {} = {};", if *mutable { "mut " } else { "" }, ty.name(), show(e)); }
        S::Assign(n, e) => { let _ = writeln!(o, "{ind}{n} = {};", show(e)); }
        S::SetField(t, e) => { let _ = writeln!(o, "{ind}p.{} = {};", if *t == T::A { "x" } else { "y" }, show(e)); }
        S::Bump(e) => { let _ = writeln!(o, "{ind}_ = p.bump({});", show(e)); }
        S::Return(e) => { let _ = writeln!(o, "{ind}return {};", show(e)); }
        S::If(c, t, f, semi) => {
            let _ = writeln!(o, "{ind}if ({}) {{", show_cond(c));
            show_stmts(t, &deep, o);
            if let Some(f) = f { let _ = writeln!(o, "{ind}}} else {{"); show_stmts(f, &deep, o); }
            let _ = writeln!(o, "{ind}}}{}", if *semi { ";" } else { "" });
        }
    } }
}
fn show_cu(c: &Cu) -> String {
    match c {
        Cu::Fixed(c) => if *c >= 1000 { format!("{}_{:03}", c / 1000, c % 1000) } else { c.to_string() },
        Cu::Callee(f) => format!("f{f}"),
        Cu::Zero(f) => format!("f{f}_zero"),
        Cu::Mapping(n, m) => format!("{n} in {{ {} }}", m.iter().map(|(p, c)| format!("{} : {}", p.map_or("_".into(), |p| p.to_string()), show_cu(c))).collect::<Vec<_>>().join(" , ")),
    }
}
fn show_call(fs: &[Fun], c: &Call, ind: &str, o: &mut String) {
    let f = &fs[c.f];
    let mut a = vec!["storage".to_string(), "p".to_string()];
    for (e, p) in c.args.iter().zip(&f.params) {
        a.push(match p.1 {
            Par::Val(_) => show(e),
            Par::Ref(_) => match e { E::Deref(n) => n.clone(), E::Bin(..) => format!("&({})", show(e)), e => format!("&{}", show(e)) },
        });
    }
    let _ = writeln!(o, "{ind}partial {} = f{}({}) {{", c.v, c.f, a.join(", "));
    show_stmts(&c.body, &format!("{ind}    "), o);
    let _ = write!(o, "{ind}}}");
}
fn show_branch(fs: &[Fun], b: &Branch, ind: &str, o: &mut String) {
    match b {
        Branch::Call(c) => { show_call(fs, c, ind, o); o.push_str(if c.semi { ";\n" } else { "\n" }) }
        Branch::Stmts(s) => show_stmts(s, ind, o),
        Branch::If(c, t, f) => {
            let deep = format!("{ind}    ");
            let _ = writeln!(o, "{ind}if ({}) {{", show_cond(c));
            show_branch(fs, t, &deep, o);
            if let Some(f) = f { let _ = writeln!(o, "{ind}}} else {{"); show_branch(fs, f, &deep, o); }
            let _ = writeln!(o, "{ind}}}");
        }
    }
}
fn show_parts(fs: &[Fun], ps: &[Part], ind: &str, o: &mut String) {
    let deep = format!("{ind}    ");
    for (k, p) in ps.iter().enumerate() {
        let more = k + 1 < ps.len();
        match p {
            Part::Group(c, s) => { let _ = writeln!(o, "{ind}{{   /// {}", show_cu(c)); show_stmts(s, &deep, o); let _ = writeln!(o, "{ind}}}"); }
            Part::If(c, b) => { let _ = writeln!(o, "{ind}{{   /// {}", show_cu(c)); show_branch(fs, b, &deep, o); let _ = writeln!(o, "{ind}}}"); }
            Part::Call(c) => { show_call(fs, c, ind, o); o.push_str(if more || c.semi { ";\n" } else { "\n" }) }
            Part::For { i, x, arr, body } => {
                let _ = writeln!(o, "{ind}for {i}, {x} in [{}] {{", arr.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(", "));
                show_parts(fs, body, &deep, o);
                let _ = writeln!(o, "{ind}}}{}", if more { ";" } else { "" });
            }
        }
    }
}

pub fn source(p: &Program) -> String {
    let mut o = String::new();
    let n = p.funs.len() - 1;
    let _ = writeln!(o, "    f{n}, Computation, {},\n", p.budget);
    for (k, f) in p.funs.iter().enumerate() {
        let mut ps = "storage: &mut Storage, p: &mut P".to_string();
        for (n, t) in &f.params { let _ = match t { Par::Val(t) => write!(ps, ", {n}: {}", t.name()), Par::Ref(t) => write!(ps, ", {n}: &{}", t.name()) }; }
        let _ = writeln!(o, "    f{k}({ps}) -> {} {{", f.ret.name());
        for s in &f.scopes {
            match s {
                Scope::Plain(c, s) => { let _ = writeln!(o, "        {{   /// {}", show_cu(&Cu::Fixed(*c))); show_stmts(s, "            ", &mut o); }
                Scope::Cond(c, b) => { let _ = writeln!(o, "        {{   /// {}", show_cu(c)); show_branch(&p.funs, b, "            ", &mut o); }
                Scope::Parts(ps) => { o.push_str("        {\n"); show_parts(&p.funs, ps, "            ", &mut o); }
            }
            o.push_str("        }\n");
        }
        o.push_str(if k < n { "    },\n\n" } else { "    }\n" });
    }
    o
}

/// Rust module with the i-th program of a collection
pub fn module(p: &Program, i: usize) -> String {
    let n = p.funs.len() - 1;
    format!("mod program_{i} {{ use super::*;\nelusiv_computations!(\n{}\n);\npub fn start(i: Input) {{ run::<{{ <Computation as PartialComputation<{ix}>>::IX_COUNT }}, Computation>(i, F{n}_ROUNDS_COUNT, |r, s, a, b, p| f{n}_partial(r, s, p, a, b).map(|v| v.map(|v| v.0))) }}\n}}\n",
        source(p), ix = instructions(&cus(&p.funs, &p.funs[n]), p.budget).len())
}

pub fn collection(ps: &[&Program]) -> String {
    let mut o: String = ps.iter().enumerate().map(|(i, p)| module(p, i)).collect();
    o.push_str("fn program(k: u64, i: Input) { match k {\n");
    for i in 0..ps.len() { let _ = writeln!(o, "{i} => program_{i}::start(i),"); }
    o.push_str("_ => unreachable!() } }\n");
    o
}

/// The fewest parts within the budget (10,000 units in reserve), each as long as possible
pub fn instructions(cus: &[u64], budget: u64) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut sum = u64::MAX;
    for c in cus {
        if sum != u64::MAX && sum + c <= budget - 10_000 { *v.last_mut().unwrap() += 1; sum += c } else { v.push(1); sum = *c }
    }
    v
}

// ---------------------------------------------------------------- execution

#[derive(Default)]
pub struct Frame { env: HashMap<String, u64>, sub: Option<Box<Frame>> }

pub struct State { pub x: u64, pub y: u64, pub conds: Vec<bool> }

type R<X> = Result<X, ()>;

fn eval(e: &E, f: &Frame, p: &State) -> R<u64> {
    Ok(match e {
        E::Var(n) | E::Deref(n) => f.env[n],
        E::Field(T::A) => p.x,
        E::Field(T::B) => p.y,
        E::Lit(_, v) => *v,
        E::One(_) => 1,
        E::Index(_, n) | E::Elem(_, n) => f.env[n],
        E::Bin(op, l, r) => {
            let (l, r) = (eval(l, f, p)?, eval(r, f, p)?);
            match op { '+' => l.wrapping_add(r), '-' => l.wrapping_sub(r), _ => l.wrapping_mul(r) }
        }
        E::Paren(e) => eval(e, f, p)?,
        E::Meth("double", n, _) => f.env[n].wrapping_mul(2),
        E::Meth(_, n, a) => f.env[n].rotate_left(7).wrapping_mul(31).wrapping_add(eval(&a[0], f, p)?),
        E::Convert(_, e) => eval(e, f, p)? ^ 0x5555,
        E::Quot(n, e) => { let d = eval(e, f, p)?; f.env[n].checked_div(d).ok_or(())? }
    })
}
fn test(c: &C, f: &Frame, p: &State) -> R<bool> {
    let cmp = |op: char, l: u64, r: u64| match op { '=' => l == r, '<' => l < r, _ => l > r };
    Ok(match c {
        C::Cmp(op, l, r) => cmp(*op, eval(l, f, p)?, eval(r, f, p)?),
        C::Loop(n, op, v) => cmp(*op, f.env[n], *v),
        C::Not(c) => !test(c, f, p)?,
    })
}
fn stmts(s: &[S], f: &mut Frame, p: &mut State) -> R<Option<u64>> {
    for s in s { match s {
        S::Let { name, e, .. } | S::Assign(name, e) => { let v = eval(e, f, p)?; f.env.insert(name.clone(), v); }
        S::SetField(T::A, e) => p.x = eval(e, f, p)?,
        S::SetField(T::B, e) => p.y = eval(e, f, p)?,
        S::Bump(e) => { let v = eval(e, f, p)?; p.x = p.x.wrapping_mul(3).wrapping_add(v) }
        S::Return(e) => return Ok(Some(eval(e, f, p)?)),
        S::If(c, t, e, _) => {
            let b = test(c, f, p)?;
            p.conds.push(b);
            let r = if b { stmts(t, f, p)? } else if let Some(e) = e { stmts(e, f, p)? } else { None };
            if r.is_some() { return Ok(r); }
        }
    } }
    Ok(None)
}
fn call(fs: &[Fun], c: &Call, round: usize, f: &mut Frame, p: &mut State) -> R<Option<u64>> {
    let g = &fs[c.f];
    if round == 0 {
        let mut sub = Frame::default();
        for (e, (n, _)) in c.args.iter().zip(&g.params) { let v = eval(e, f, p)?; sub.env.insert(n.clone(), v); }
        f.sub = Some(Box::new(sub));
    }
    let mut sub = f.sub.take().unwrap();
    let r = step(fs, g, round, &mut sub, p)?;
    if round + 1 < fun_rounds(fs, g) { f.sub = Some(sub); return Ok(None); }
    f.env.insert(c.v.clone(), r.expect("a function returns in its last round"));
    stmts(&c.body, f, p)
}
fn branch(fs: &[Fun], b: &Branch, round: usize, f: &mut Frame, p: &mut State) -> R<Option<u64>> {
    match b {
        Branch::Call(c) => if round < fun_rounds(fs, &fs[c.f]) { call(fs, c, round, f, p) } else { Ok(None) },
        Branch::Stmts(s) => if round == 0 { stmts(s, f, p) } else { Ok(None) },
        Branch::If(c, t, e) => {
            let b = test(c, f, p)?;
            if round == 0 { p.conds.push(b); }
            if b { branch(fs, t, round, f, p) } else if let Some(e) = e { branch(fs, e, round, f, p) } else { Ok(None) }
        }
    }
}
fn parts(fs: &[Fun], ps: &[Part], mut round: usize, f: &mut Frame, p: &mut State) -> R<Option<u64>> {
    for part in ps {
        let n = part_rounds(fs, part);
        if round >= n { round -= n; continue; }
        return match part {
            Part::Group(_, s) => stmts(s, f, p),
            Part::Call(c) => call(fs, c, round, f, p),
            Part::If(_, b) => branch(fs, b, round, f, p),
            Part::For { i, x, arr, body } => {
                let m = parts_rounds(fs, body);
                f.env.insert(i.clone(), (round / m) as u64);
                f.env.insert(x.clone(), arr[round / m]);
                parts(fs, body, round % m, f, p)
            }
        };
    }
    unreachable!()
}
/// Executes one round of a function
pub fn step(fs: &[Fun], g: &Fun, mut round: usize, f: &mut Frame, p: &mut State) -> R<Option<u64>> {
    for s in &g.scopes {
        let n = scope_rounds(fs, s);
        if round >= n { round -= n; continue; }
        return match s {
            Scope::Plain(_, s) => stmts(s, f, p),
            Scope::Parts(ps) => parts(fs, ps, round, f, p),
            Scope::Cond(_, b) => branch(fs, b, round, f, p),
        };
    }
    unreachable!()
}

/// Output expected from the runtime for one input (without the memory frames)
pub fn expected(p: &Program, a: u64, b: u64, x: u64, y: u64) -> (Vec<String>, Vec<bool>) {
    let g = p.funs.last().unwrap();
    let mut f = Frame::default();
    f.env.insert("a".into(), a);
    f.env.insert("b".into(), b);
    let mut s = State { x, y, conds: vec![] };
    let mut out = vec![];
    for r in 0..fun_rounds(&p.funs, g) {
        match step(&p.funs, g, r, &mut f, &mut s) {
            Ok(None) => out.push(format!("none {} {} (0, 0)", s.x, s.y)),
            Ok(Some(v)) => out.push(format!("value {v} {} {} (0, 0)", s.x, s.y)),
            Err(()) => { out.push(format!("error {} {}", s.x, s.y)); break; }
        }
    }
    (out, s.conds)
}

#[derive(Default, Debug)]
pub struct Shape { pub calls: usize, pub fors: usize, pub ifs: usize, pub stored: usize }
pub fn shape(p: &Program) -> Shape {
    let mut s = Shape::default();
    fn part(p: &Part, s: &mut Shape) { match p {
        Part::Call(_) => s.calls += 1,
        Part::For { body, .. } => { s.fors += 1; for p in body { part(p, s) } }
        Part::If(..) => { s.ifs += 1; s.calls += 1 }
        _ => (),
    } }
    for f in &p.funs { for sc in &f.scopes { match sc { Scope::Parts(ps) => for p in ps { part(p, &mut s) }, Scope::Cond(..) => { s.ifs += 1; s.calls += 1 }, Scope::Plain(_, v) => s.stored += v.iter().filter(|x| matches!(x, S::Let { .. })).count() } } }
    s
}
