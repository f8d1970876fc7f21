//! Random declarations for the derive and account macros: their text, and what they mean.
use pbt::*;
use std::fmt::Write;

// ---- value types ----

#[derive(Clone, Debug)]
pub enum Ty { Int(&'static str, usize), Bool, Key, Arr(Box<Ty>, usize), Opt(Box<Ty>), Named(usize), Gen(usize, usize) }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style { Unit, Named, Tuple }
#[derive(Clone, Debug)]
pub enum Decl { Struct(Vec<Ty>, Style), Generic(Vec<Ty>), Enum(Vec<(Vec<Ty>, Style)>) }

#[derive(Clone, Debug)]
pub enum Kind { One(Ty), Many(Ty, usize), Lazy(usize) }
#[derive(Clone, Debug)]
pub struct Field { pub name: String, pub kind: Kind, pub get: bool, pub set: bool, pub public: bool }
#[derive(Clone, Debug)]
pub struct Account { pub name: String, pub fields: Vec<Field>, pub children: Option<usize>, pub computation: bool, pub eager: bool }

#[derive(Clone, Debug, PartialEq)]
pub enum Acc { User, Sys(bool), Pda(usize) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum By { None, Field, Account(usize) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Off { None, Field, Fixed(u32), Small }
#[derive(Clone, Debug)]
pub struct Attr { pub acc: Acc, pub signer: bool, pub writable: bool, pub owned: bool, pub ignore: bool, pub info: bool, pub find: bool, pub skip: bool, pub kids: bool, pub skip_abi: bool, pub by: By, pub off: Off }
#[derive(Clone, Debug)]
pub struct Variant { pub name: String, pub fields: Vec<Ty>, pub attrs: Vec<Attr> }
#[derive(Clone, Debug)]
pub struct Program { pub types: Vec<Decl>, pub accounts: Vec<Account>, pub ix: Vec<Variant> }

const KEYS: u8 = 200;
/// distinct raw keys
pub fn raw_key(s: &mut Src) -> String { format!("u{}", hex(&[vec![s.u8() % KEYS], s.vec_u8(31)].concat())) }
pub fn hex(b: &[u8]) -> String { if b.is_empty() { return "-".into() } b.iter().map(|x| format!("{x:02x}")).collect() }

impl Program {
    pub fn size(&self, t: &Ty) -> usize {
        match t {
            Ty::Int(_, n) => *n, Ty::Bool => 1, Ty::Key => 32, Ty::Arr(t, n) => n * self.size(t), Ty::Opt(t) => 1 + self.size(t), Ty::Named(i) => self.decl_size(&self.types[*i], 0), Ty::Gen(i, n) => self.decl_size(&self.types[*i], *n),
        }
    }
    fn sum(&self, f: &[Ty]) -> usize { f.iter().map(|t| self.size(t)).sum() }
    pub fn decl_size(&self, d: &Decl, n: usize) -> usize {
        match d { Decl::Struct(f, _) => self.sum(f), Decl::Generic(f) => self.sum(f) + n, Decl::Enum(v) => 1 + v.iter().map(|v| self.sum(&v.0)).max().unwrap() }
    }
    /// is every value encoded in the same number of bytes?
    pub fn fixed(&self, t: &Ty) -> bool {
        match t {
            Ty::Arr(t, _) | Ty::Opt(t) => self.fixed(t),
            Ty::Named(i) | Ty::Gen(i, _) => match &self.types[*i] { Decl::Struct(f, _) | Decl::Generic(f) => f.iter().all(|t| self.fixed(t)), Decl::Enum(v) => v.iter().all(|x| self.sum(&x.0) == self.sum(&v[0].0) && x.0.iter().all(|t| self.fixed(t))) },
            _ => true,
        }
    }
    pub fn ty_name(&self, t: &Ty) -> String {
        match t {
            Ty::Int(s, _) => s.to_string(), Ty::Bool => "bool".into(), Ty::Key => "Pubkey".into(), Ty::Arr(t, n) => format!("[{}; {n}]", self.ty_name(t)), Ty::Opt(t) => format!("ElusivOption<{}>", self.ty_name(t)),
            Ty::Named(i) => format!("T{i}"), Ty::Gen(i, n) => format!("T{i}<{n}>"),
        }
    }
    pub fn decl_ty(&self, i: usize) -> Ty { if let Decl::Generic(_) = self.types[i] { Ty::Gen(i, 3 + i) } else { Ty::Named(i) } }
    /// the encoding of a value
    pub fn value(&self, t: &Ty, s: &mut Src) -> Vec<u8> {
        let all = |f: &[Ty], s: &mut Src| f.iter().flat_map(|t| self.value(t, s)).collect::<Vec<u8>>();
        match t {
            Ty::Int(_, n) => match s.below(6) { 0 => vec![0; *n], 1 => vec![255; *n], _ => s.vec_u8(*n) },
            Ty::Key => s.vec_u8(32),
            Ty::Bool => vec![s.bool() as u8],
            Ty::Arr(t, n) => (0..*n).flat_map(|_| self.value(t, s)).collect(),
            Ty::Opt(t) => if s.bool() { [vec![1], self.value(t, s)].concat() } else { vec![0; 1 + self.size(t)] },
            Ty::Named(i) | Ty::Gen(i, _) => match &self.types[*i] {
                Decl::Struct(f, _) => all(f, s),
                Decl::Generic(f) => { let n = if let Ty::Gen(_, n) = t { *n } else { 0 }; [all(f, s), s.vec_u8(n)].concat() }
                Decl::Enum(v) => { let k = s.below(v.len()); [vec![k as u8], all(&v[k].0, s)].concat() }
            },
        }
    }
    pub fn field_size(&self, f: &Field) -> usize { match &f.kind { Kind::One(t) => self.size(t), Kind::Many(t, n) => n * self.size(t), Kind::Lazy(n) => *n } }
    pub fn account_size(&self, a: &Account) -> usize { 2 + a.fields.iter().map(|f| self.field_size(f)).sum::<usize>() }
    pub fn seed(&self, a: usize) -> String { let n = &self.accounts[a].name; n.strip_suffix("Account").unwrap_or(n).to_string() }
    /// expression of an address
    pub fn pda(&self, a: usize, key: Option<&str>, off: Option<u32>) -> String {
        let mut e = format!("P{}", hex(self.seed(a).as_bytes()));
        if let Some(k) = key { write!(e, ".{}", &k[1..]).unwrap(); }
        if let Some(o) = off { write!(e, ".{}", hex(&o.to_le_bytes())).unwrap(); }
        e
    }
}

fn prim(s: &mut Src) -> Ty { match s.below(7) { 0 => Ty::Int("u8", 1), 1 => Ty::Int("u16", 2), 2 => Ty::Int("u32", 4), 3 => Ty::Int("u64", 8), 4 => Ty::Int("u128", 16), 5 => Ty::Bool, _ => Ty::Key } }
fn ty(p: &Program, s: &mut Src, depth: usize) -> Ty {
    match s.below(if depth == 0 { 4 } else { 10 }) {
        0..=3 => prim(s),
        4 | 5 => Ty::Arr(Box::new(ty(p, s, depth - 1)), s.usize(1, 4)),
        6 | 7 => Ty::Opt(Box::new(ty(p, s, depth - 1))),
        _ if p.types.is_empty() => prim(s),
        _ => p.decl_ty(s.below(p.types.len())),
    }
}
fn fixed_ty(p: &Program, s: &mut Src) -> Ty { for _ in 0..4 { let t = ty(p, s, 2); if p.fixed(&t) && p.size(&t) <= 400 { return t } } prim(s) }
fn fields(p: &Program, s: &mut Src, max: usize) -> Vec<Ty> { (0..s.usize(1, max)).map(|_| { for _ in 0..4 { let t = ty(p, s, 2); if p.size(&t) <= 300 { return t } } prim(s) }).collect() }

pub fn generate(s: &mut Src) -> Program {
    let mut p = Program { types: vec![], accounts: vec![], ix: vec![] };
    for _ in 0..s.usize(1, 4) {
        let style = |s: &mut Src| if s.bool() { Style::Named } else { Style::Tuple };
        let d = match s.below(5) {
            0 => Decl::Generic(if s.bool() { fields(&p, s, 2) } else { vec![] }),
            1 | 2 => { let f = fields(&p, s, 4); let t = style(s); Decl::Struct(f, t) }
            _ => {
                let same = s.bool();
                let f = fields(&p, s, 3);
                Decl::Enum((0..s.usize(1, 5)).map(|_| if same && s.chance(3, 4) { let mut f = f.clone(); f.reverse(); let t = style(s); (f, t) } else if s.chance(1, 4) { (vec![], Style::Unit) } else { let f = fields(&p, s, 3); let t = style(s); (f, t) }).collect())
            }
        };
        p.types.push(d);
    }
    const WORDS: [&str; 8] = ["Vault", "Pool", "AccountBook", "Queue", "V2State", "LongNameOfSomeThing", "X", "Map"];
    let first = s.below(8);
    for k in 0..2 {
        let name = format!("{}{}", WORDS[(first + k * 3) % 8], if s.chance(3, 4) { "Account" } else { "" });
        let children = s.chance(2, 5).then(|| s.usize(1, 4));
        let computation = children.is_none() && s.chance(1, 3);
        let mut f = vec![];
        let field = |name: String, kind: Kind| Field { name, kind, get: true, set: true, public: true };
        if let Some(n) = children { f.push(field("pubkeys".into(), Kind::Many(Ty::Opt(Box::new(Ty::Key)), n))); }
        if computation { f.push(field("instruction".into(), Kind::One(Ty::Int("u32", 4)))); f.push(field("round".into(), Kind::One(Ty::Int("u32", 4)))); }
        for i in 0..s.usize(0, 5) {
            let name = format!("f{i}{}", s.pick(&["", "_count", "_x_y"]));
            let kind = match s.below(6) { 0..=2 => Kind::One(fixed_ty(&p, s)), 3 => Kind::Many(fixed_ty(&p, s), s.usize(1, 5)), 4 => Kind::Lazy(s.usize(1, 40)), _ => Kind::One(fields(&p, s, 1).remove(0)) };
            let (mut get, mut set) = (s.chance(4, 5), s.chance(4, 5));
            // a getter reads values of one size, an account with an array reads them too
            match &kind { Kind::One(Ty::Arr(t, _)) if !p.fixed(t) => continue, Kind::One(t) if !p.fixed(t) => get = false, Kind::Lazy(_) => { get = false; set = false } _ => {} }
            let kind = match kind { Kind::One(Ty::Arr(t, n)) => Kind::Many(*t, n), k => k };
            f.push(Field { name, kind, get, set, public: s.bool() });
        }
        p.accounts.push(Account { name, fields: f, children, computation, eager: children.is_some() || s.chance(3, 4) });
    }
    const NAMES: [&str; 8] = ["Open", "OpenIt", "DoSomeThing", "V1Step", "Close", "A", "CloseAllOfThem", "Move2"];
    let first = s.below(8);
    for k in 0..s.usize(1, 3) {
        let mut v = Variant { name: NAMES[(first + k) % 8].into(), fields: vec![], attrs: vec![] };
        // (the first fields are the ones accounts refer to)
        for _ in 0..s.usize(0, 2) { v.fields.push(fields(&p, s, 1).remove(0)); }
        let mut kids = false;
        for j in 0..s.below(6) {
            let mut a = Attr { acc: Acc::User, signer: s.chance(1, 4), writable: s.bool(), owned: s.chance(1, 8), ignore: s.chance(1, 8), info: false, find: false, skip: false, kids: false, skip_abi: false, by: By::None, off: Off::None };
            match s.below(5) {
                0 | 1 => {}
                2 => a.acc = Acc::Sys(s.bool()),
                _ => {
                    let t = s.below(2);
                    a.acc = Acc::Pda(t);
                    a.signer = false;
                    a.kids = !kids && p.accounts[t].children.is_some() && s.bool();
                    kids |= a.kids;
                    a.info = !a.kids && s.chance(1, 3);
                    a.skip = a.info && s.chance(1, 3);
                    a.ignore = a.ignore && a.info && !a.skip;
                    a.find = !a.skip && s.chance(1, 3);
                    a.skip_abi = s.chance(1, 6);
                    let users: Vec<usize> = (0..j).filter(|i| v.attrs[*i].acc == Acc::User).collect();
                    a.by = match s.below(4) { 0 => By::Field, 1 if !users.is_empty() => By::Account(s.pick(&users)), _ => By::None };
                    a.off = match s.below(5) { 0 => Off::Field, 1 => Off::Fixed(s.below(4) as u32), 2 => Off::Small, _ => Off::None };
                }
            }
            v.attrs.push(a);
        }
        p.ix.push(v);
    }
    p
}

impl Variant {
    pub fn uses_key(&self) -> bool { self.attrs.iter().any(|a| a.by == By::Field) }
    pub fn uses_off(&self) -> bool { self.attrs.iter().any(|a| a.off == Off::Field) }
    pub fn uses_small(&self) -> bool { self.attrs.iter().any(|a| a.off == Off::Small) }
    /// names and types of the fields
    pub fn all_fields(&self) -> Vec<(String, Ty)> {
        let mut f = vec![];
        if self.uses_off() { f.push(("off".into(), Ty::Int("u32", 4))); }
        for (i, t) in self.fields.iter().enumerate() { f.push((format!("f{i}"), t.clone())); }
        if self.uses_key() { f.push(("key".into(), Ty::Key)); }
        if self.uses_small() { f.push(("small".into(), Ty::Int("u8", 1))); }
        f
    }
    pub fn snake(&self) -> String {
        let mut r = String::new();
        for (i, c) in self.name.chars().enumerate() { if c.is_uppercase() && i > 0 { r.push('_') } r.push(c.to_ascii_lowercase()) }
        r
    }
}

// ---- their text ----

pub fn source(p: &Program) -> String {
    let mut o = String::new();
    macro_rules! w { ($($x:tt)*) => { writeln!(o, $($x)*).unwrap() } }
    let tn = |t: &Ty| p.ty_name(t);
    let list = |f: &[Ty], style: Style, vis: &str| -> String {
        match style { Style::Unit => String::new(), Style::Named => format!(" {{ {} }}", f.iter().enumerate().map(|(i, t)| format!("{vis}x{i}: {}", tn(t))).collect::<Vec<_>>().join(", ")), Style::Tuple => format!("({})", f.iter().map(|t| format!("{vis}{}", tn(t))).collect::<Vec<_>>().join(", ")) }
    };
    let init = |f: &[Ty], style: Style| -> String {
        match style { Style::Unit => String::new(), Style::Named => format!(" {{ {} }}", (0..f.len()).map(|i| format!("x{i}: Default::default()")).collect::<Vec<_>>().join(", ")), Style::Tuple => format!("({})", f.iter().map(|_| "Default::default()").collect::<Vec<_>>().join(", ")) }
    };
    w!("use super::*;");
    for (i, d) in p.types.iter().enumerate() {
        w!("#[derive(BorshDeserialize, BorshSerialize, BorshSerDeSized, {}Clone, Copy, Debug)]", if matches!(d, Decl::Enum(_)) { "EnumVariantIndex, " } else { "" });
        match d {
            Decl::Struct(f, style) => {
                w!("pub struct T{i}{}{}", list(f, *style, "pub "), if *style == Style::Tuple { ";" } else { "" });
                w!("impl Default for T{i} {{ fn default() -> Self {{ T{i}{} }} }}", init(f, *style));
            }
            Decl::Generic(f) => {
                w!("pub struct T{i}<const N: usize> {{ {}pub data: [u8; N] }}", f.iter().enumerate().map(|(i, t)| format!("pub x{i}: {}, ", tn(t))).collect::<String>());
                w!("impl<const N: usize> Default for T{i}<N> {{ fn default() -> Self {{ T{i} {{ {}data: [0; N] }} }} }}", (0..f.len()).map(|i| format!("x{i}: Default::default(), ")).collect::<String>());
            }
            Decl::Enum(v) => {
                w!("pub enum T{i} {{ {} }}", v.iter().enumerate().map(|(k, v)| format!("V{k}{}", list(&v.0, v.1, ""))).collect::<Vec<_>>().join(", "));
                w!("impl Default for T{i} {{ fn default() -> Self {{ T{i}::V0{} }} }}", init(&v[0].0, v[0].1));
            }
        }
    }
    for a in &p.accounts {
        let mut attrs = vec![];
        if let Some(n) = a.children { attrs.push(format!("parent_account: {{ child_account_count: {n}, child_account: Child }}")); }
        if a.computation { attrs.push("partial_computation: true".into()); }
        if a.eager { attrs.push("eager_type: true".into()); }
        w!("#[elusiv_account{}]\npub struct {} {{\n    #[no_getter]\n    #[no_setter]\n    pda_data: PDAAccountData,", if attrs.is_empty() { String::new() } else { format!("({})", attrs.join(", ")) }, a.name);
        for f in &a.fields {
            if let Kind::Lazy(n) = f.kind { w!("    #[lazy]\n    {}{}: Raw<'a, {n}>,", if f.public { "pub " } else { "" }, f.name); continue }
            if !f.get { w!("    #[no_getter]"); }
            if !f.set { w!("    #[no_setter]"); }
            let t = match &f.kind { Kind::One(t) => tn(t), Kind::Many(t, n) => format!("[{}; {n}]", tn(t)), _ => unreachable!() };
            w!("    {}{}: {t},", if f.public { "pub " } else { "" }, f.name);
        }
        w!("}}");
    }
    // instructions
    w!("#[derive(BorshDeserialize, BorshSerialize, ElusivInstruction)]\npub enum Ix {{");
    for v in &p.ix {
        for (j, a) in v.attrs.iter().enumerate() {
            let mut flags = vec![];
            for (f, n) in [(a.signer, "signer"), (a.writable, "writable"), (a.owned, "owned"), (a.ignore, "ignore"), (a.info, "account_info"), (a.find, "find_pda"), (a.skip, "skip_pda_verification"), (a.kids, "include_child_accounts"), (a.skip_abi, "skip_abi")] { if f { flags.push(n) } }
            let flags = if flags.is_empty() { String::new() } else { format!(", {{ {} }}", flags.join(", ")) };
            match &a.acc {
                Acc::User => w!("    #[acc(a{j}{flags})]"),
                Acc::Sys(own) => w!("    #[sys(a{j}, key = {}{flags})]", if *own { "K0" } else { "system_program::ID" }),
                Acc::Pda(t) => {
                    let by = match a.by { By::None => String::new(), By::Field => ", pda_pubkey = key".into(), By::Account(i) => format!(", pda_pubkey = a{i}.pubkey()") };
                    let off = match a.off { Off::None => String::new(), Off::Field => ", pda_offset = Some(off)".into(), Off::Fixed(n) => format!(", pda_offset = Some({n})"), Off::Small => ", pda_offset = Some(small.into())".into() };
                    w!("    #[pda(a{j}, {}{by}{off}{flags})]", p.accounts[*t].name)
                }
            }
        }
        let f = v.all_fields();
        if f.is_empty() { w!("    {},", v.name) } else { w!("    {} {{ {} }},", v.name, f.iter().map(|(n, t)| format!("{n}: {}", tn(t))).collect::<Vec<_>>().join(", ")) }
    }
    w!("}}");
    w!("pub mod processor {{\n    use super::*;");
    for v in &p.ix {
        let mut sig = vec![];
        let mut body = String::new();
        for (j, a) in v.attrs.iter().enumerate() {
            if a.ignore { continue }
            match &a.acc {
                Acc::Pda(_) if a.skip => { sig.push(format!("a{j}: UnverifiedAccountInfo")); write!(body, "rec(format!(\"unverified {{}}\", a{j}.get_safe().is_err())); rec_account(a{j}.get_unsafe()); ").unwrap(); }
                Acc::Pda(t) if !a.info => {
                    sig.push(format!("a{j}: &{}{}", if a.writable { "mut " } else { "" }, p.accounts[*t].name));
                    write!(body, "rec(hex(&a{j}.pda_data)); ").unwrap();
                    if a.kids { write!(body, "rec(children(&a{j}.child_accounts)); ").unwrap(); }
                }
                _ => { sig.push(format!("a{j}: &AccountInfo")); write!(body, "rec_account(a{j}); ").unwrap(); }
            }
        }
        for (n, t) in v.all_fields() { sig.push(format!("{n}: {}", tn(&t))); write!(body, "rec(hex(&enc(&{n}))); ").unwrap(); }
        w!("    pub fn {}({}) -> ProgramResult {{ rec(\"{}\".into()); {body}Ok(()) }}", v.snake(), sig.join(", "), v.name);
    }
    w!("}}");
    // access
    w!("pub fn size(i: usize) -> usize {{ match i {{ {} _ => panic!() }} }}", (0..p.types.len()).map(|i| format!("{i} => <{} as BorshSerDeSized>::SIZE, ", tn(&p.decl_ty(i)))).collect::<String>());
    w!("pub fn exact_(i: usize, b: &[u8]) -> String {{ match i {{ {} _ => panic!() }} }}", (0..p.types.len()).map(|i| format!("{i} => exact::<{}>(b), ", tn(&p.decl_ty(i)))).collect::<String>());
    w!("pub fn partial_(i: usize, b: &[u8]) -> String {{ match i {{ {} _ => panic!() }} }}", p.types.iter().enumerate().filter(|d| matches!(d.1, Decl::Enum(_))).map(|(i, _)| format!("{i} => partial::<T{i}>(b, |t| t.variant_index()), ")).collect::<String>());
    let each = |f: &dyn Fn(usize, &Account) -> String| p.accounts.iter().enumerate().map(|(i, a)| f(i, a)).collect::<String>();
    w!("pub fn account_size(i: usize) -> usize {{ match i {{ {} _ => panic!() }} }}", each(&|i, a| format!("{i} => <{} as SizedAccount>::SIZE, ", a.name)));
    w!("pub fn new(i: usize, d: &mut [u8]) -> bool {{ match i {{ {} _ => panic!() }} }}", each(&|i, a| format!("{i} => <{} as ProgramAccount>::new(d).is_ok(), ", a.name)));
    let access = |f: &dyn Fn(&Account, usize, &Field) -> Option<String>| each(&|i, a| format!("{i} => {{ let mut a = <{} as ProgramAccount>::new(d).unwrap(); match f {{ {} _ => panic!() }} }} ", a.name, a.fields.iter().enumerate().filter_map(|(k, x)| f(a, k, x).map(|e| format!("{k} => {e}, "))).collect::<String>()));
    w!("pub fn get(i: usize, d: &mut [u8], f: usize, n: usize) -> Vec<u8> {{ match i {{ {} _ => panic!() }} }}", access(&|_, _, x| match &x.kind { Kind::Lazy(_) => Some(format!("a.{}.0.to_vec()", x.name)), _ if !x.get => None, Kind::One(_) => Some(format!("enc(&a.get_{}())", x.name)), Kind::Many(..) => Some(format!("enc(&a.get_{}(n))", x.name)) }));
    w!("pub fn set(i: usize, d: &mut [u8], f: usize, n: usize, v: &[u8]) {{ match i {{ {} _ => panic!() }} }}", access(&|_, _, x| match &x.kind { Kind::Lazy(_) => Some(format!("a.{}.0.copy_from_slice(v)", x.name)), _ if !x.set => None, Kind::One(_) => Some(format!("a.set_{}(&dec(v))", x.name)), Kind::Many(..) => Some(format!("a.set_{}(n, &dec(v))", x.name)) }));
    w!("pub fn eager(i: usize, d: Vec<u8>) -> String {{ match i {{ {} _ => panic!() }} }}", each(&|i, a| if !a.eager { String::new() } else { format!("{i} => match {}Eager::new(d) {{ Ok(a) => format!(\"ok {{}}\", hex(&enc(&a))), Err(_) => \"err\".into() }}, ", a.name) }));
    w!("pub fn pubkeys(i: usize, mut d: Vec<u8>) -> String {{ let show = |v: Vec<Option<Pubkey>>| v.into_iter().map(|k| match k {{ None => \"+\".into(), Some(k) => format!(\"+{{}}\", hex(k.as_ref())) }}).collect::<String>(); match i {{ {} _ => panic!() }} }}", each(&|i, a| match a.children { None => String::new(), Some(n) => format!("{i} => {{ let e = show({}Eager::new(d.clone()).unwrap().child_pubkeys()); let a = <{} as ProgramAccount>::new(&mut d).unwrap(); format!(\"{{e}} {{}} {{}}\", show((0..{n}).map(|k| a.get_child_pubkey(k)).collect()), <{} as ParentAccount>::COUNT) }} ", a.name, a.name, a.name) }));
    w!("pub fn computation(i: usize, mut d: Vec<u8>) -> String {{ match i {{ {} _ => panic!() }} }}", each(&|i, a| if !a.computation { String::new() } else { format!("{i} => {{ let a = <{} as ProgramAccount>::new(&mut d).unwrap(); format!(\"{{}} {{}}\", ComputationAccount::instruction(&a), ComputationAccount::round(&a)) }} ", a.name) }));
    w!("pub fn pda(i: usize, k: Option<Pubkey>, o: Option<u32>) -> [(Pubkey, u8); 2] {{ match i {{ {} _ => panic!() }} }}", each(&|i, a| format!("{i} => {{ let x = <{} as PDAAccount>::find_with_pubkey_optional(k, o); let y = match k {{ Some(k) => <{} as PDAAccount>::create_with_pubkey(k, o, x.1), None => <{} as PDAAccount>::create(o, x.1) }}; [x, (y.unwrap(), x.1)] }} ", a.name, a.name, a.name)));
    w!("pub fn process(d: &[u8], a: &[AccountInfo]) -> Option<ProgramResult> {{ let ix = Ix::try_from_slice(d).ok()?; Some(Ix::process(&PROGRAM_ID, a, ix)) }}");
    let mut arms = String::new();
    for (k, v) in p.ix.iter().enumerate() {
        let mut args: Vec<String> = v.all_fields().iter().enumerate().map(|(i, (_, t))| format!("dec::<{}>(&f[{i}])", tn(t))).collect();
        let mut n = 0;
        for a in &v.attrs {
            let ty = match (a.signer, a.writable) { (true, true) => "WritableSignerAccount", (true, false) => "SignerAccount", (false, true) => "WritableUserAccount", _ => "UserAccount" };
            if a.acc == Acc::User { args.push(format!("{ty}(k[{n}])")); n += 1 }
            if a.skip_abi {
                if a.by != By::None { args.push(format!("k[{n}]")); n += 1 }
                // (given as the first four bytes of a key whose fifth says whether there is one)
                args.push(format!("(k[{n}].as_ref()[4] == 1).then(|| u32::from_le_bytes(k[{n}].as_ref()[..4].try_into().unwrap()))")); n += 1
            }
            if a.kids { args.push(format!("&[{ty}(k[{n}]), {ty}(k[{}])]", n + 1)); n += 2 }
        }
        write!(arms, "{k} => Ix::{}_instruction({}), ", v.snake(), args.join(", ")).unwrap();
    }
    w!("pub fn build(i: usize, f: &[Vec<u8>], k: &[Pubkey]) -> Instruction {{ match i {{ {arms} _ => panic!() }} }}");
    w!("pub fn index(i: usize) -> u8 {{ match i {{ {} _ => panic!() }} }}", p.ix.iter().enumerate().map(|(k, v)| format!("{k} => Ix::{}_INDEX, ", v.snake().to_uppercase())).collect::<String>());
    o
}
/// many of them, in modules, with a table
pub fn collection(ps: &[&Program]) -> String {
    let mut o = String::new();
    for (i, p) in ps.iter().enumerate() { writeln!(o, "pub mod c{i} {{\n{}}}", source(p)).unwrap(); }
    writeln!(o, "fn case(i: usize) -> Case {{ match i {{ {} _ => panic!() }} }}", (0..ps.len()).map(|i| format!("{i} => Case {{ size: c{i}::size, exact: c{i}::exact_, partial: c{i}::partial_, account_size: c{i}::account_size, new: c{i}::new, get: c{i}::get, set: c{i}::set, eager: c{i}::eager, pubkeys: c{i}::pubkeys, computation: c{i}::computation, pda: c{i}::pda, process: c{i}::process, build: c{i}::build, index: c{i}::index }}, ")).collect::<String>()).unwrap();
    o
}
