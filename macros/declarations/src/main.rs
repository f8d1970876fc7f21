//! Runtime of the generated declarations: executes one command per line of the standard input for one of them.
#![allow(warnings)]
pub use borsh::{BorshDeserialize, BorshSerialize};
pub use elusiv_derive::{BorshSerDeSized, ElusivInstruction, EnumVariantIndex};
pub use elusiv_proc_macros::elusiv_account;
pub use elusiv_types::accounts::*;
pub use elusiv_types::bytes::*;
pub use solana_program::account_info::AccountInfo;
pub use solana_program::entrypoint::ProgramResult;
pub use solana_program::instruction::Instruction;
pub use solana_program::pubkey::Pubkey;
pub use solana_program::system_program;
use std::cell::RefCell;

elusiv_proc_macros::declare_program_id!();
pub const K0: Pubkey = Pubkey::new_from_array([77; 32]);

/// A field which handles its bytes itself
pub struct Raw<'a, const N: usize>(pub &'a mut [u8]);
impl<'a, const N: usize> Raw<'a, N> { pub fn new(data: &'a mut [u8]) -> Self { Raw(data) } }
impl<'a, const N: usize> SizedType for Raw<'a, N> { const SIZE: usize = N; }

pub struct Child;
impl ChildAccount for Child { const INNER_SIZE: usize = 9; }

pub fn hex(b: &[u8]) -> String { if b.is_empty() { return "-".into() } b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn unhex(s: &str) -> Vec<u8> { if s == "-" { return vec![] } (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
pub fn enc<T: BorshSerialize>(t: &T) -> Vec<u8> { t.try_to_vec().unwrap() }
pub fn dec<T: BorshDeserialize>(b: &[u8]) -> T { T::deserialize(&mut &b[..]).unwrap() }
pub fn exact<T: BorshDeserialize + BorshSerialize>(b: &[u8]) -> String { match T::try_from_slice(b) { Ok(t) => format!("ok {}", hex(&enc(&t))), Err(_) => "err".into() } }
pub fn partial<T: BorshSerDeSizedEnum>(b: &[u8], index: impl Fn(&T) -> u8) -> String {
    match T::deserialize_enum(&mut &b[..]) { Ok(t) => format!("ok {} {}", index(&t), hex(&enc(&t))), Err(_) => "err".into() }
}

thread_local! { static RECORD: RefCell<Vec<String>> = Default::default(); }
pub fn rec(s: String) { RECORD.with(|r| r.borrow_mut().push(s)) }
pub fn rec_account(a: &AccountInfo) { rec(format!("k{}", hex(a.key.as_ref()))) }
pub fn children(c: &[Option<&AccountInfo>]) -> String { c.iter().map(|c| match c { Some(c) => format!("+{}", hex(c.key.as_ref())), None => "+".into() }).collect() }

/// Addresses are given as expressions (and derived without the macros under test)
fn resolve(e: &str) -> (Pubkey, u8) {
    match e.split_at(1) {
        ("u", k) => (Pubkey::new(&unhex(k)), 0),
        ("P", seeds) => { let s: Vec<Vec<u8>> = seeds.split('.').map(unhex).collect(); Pubkey::find_program_address(&s.iter().map(|x| &x[..]).collect::<Vec<_>>(), &program()) }
        ("S", _) => (system_program::ID, 0),
        ("K", _) => (K0, 0),
        ("I", _) => (program(), 0),
        _ => panic!("harness"),
    }
}
fn program() -> Pubkey { "3vxLXJqLqF3JG5TCbYycbKWRBbCJQLxQmBGCkyqEEefL".parse().unwrap() }

/// Everything a case offers
pub struct Case {
    pub size: fn(usize) -> usize,
    pub exact: fn(usize, &[u8]) -> String,
    pub partial: fn(usize, &[u8]) -> String,
    pub account_size: fn(usize) -> usize,
    pub new: fn(usize, &mut [u8]) -> bool,
    pub get: fn(usize, &mut [u8], usize, usize) -> Vec<u8>,
    pub set: fn(usize, &mut [u8], usize, usize, &[u8]),
    pub eager: fn(usize, Vec<u8>) -> String,
    pub pubkeys: fn(usize, Vec<u8>) -> String,
    pub computation: fn(usize, Vec<u8>) -> String,
    pub pda: fn(usize, Option<Pubkey>, Option<u32>) -> [(Pubkey, u8); 2],
    pub process: fn(&[u8], &[AccountInfo]) -> Option<ProgramResult>,
    pub build: fn(usize, &[Vec<u8>], &[Pubkey]) -> Instruction,
    pub index: fn(usize) -> u8,
}

include!(env!("P32_DECLARATIONS"));

fn run(c: &Case, a: &[&str]) -> String {
    let n = |i: usize| a[i].parse::<usize>().unwrap();
    match a[0] {
        "size" => (c.size)(n(1)).to_string(),
        "exact" => (c.exact)(n(1), &unhex(a[2])),
        "partial" => (c.partial)(n(1), &unhex(a[2])),
        "account_size" => (c.account_size)(n(1)).to_string(),
        "new" => (c.new)(n(1), &mut unhex(a[2])).to_string(),
        "get" => hex(&(c.get)(n(1), &mut unhex(a[2]), n(3), n(4))),
        "set" => { let mut d = unhex(a[2]); (c.set)(n(1), &mut d, n(3), n(4), &unhex(a[5])); hex(&d) }
        "eager" => (c.eager)(n(1), unhex(a[2])),
        "pubkeys" => (c.pubkeys)(n(1), unhex(a[2])),
        "computation" => (c.computation)(n(1), unhex(a[2])),
        "pda" => {
            let key = (a[2] != "-").then(|| resolve(a[2]).0);
            let (want, bump) = resolve(a[4]);
            let [x, y] = (c.pda)(n(1), key, a[3].parse().ok());
            (x == (want, bump) && y == (want, bump)).to_string()
        }
        "process" => {
            let mut list: Vec<(Pubkey, bool, bool, Pubkey, Vec<u8>, u64)> = a[2..].iter().map(|x| {
                let p: Vec<&str> = x.split('/').collect();
                let (k, bump) = resolve(p[0]);
                let mut d = unhex(&p[4][1..]);
                match &p[4][..1] { "*" => d[0] = bump, "~" => d[0] = bump.wrapping_sub(1), _ => {} }
                (k, p[1] == "1", p[2] == "1", resolve(p[3]).0, d, 0)
            }).collect();
            let keys: Vec<String> = list.iter().map(|l| format!("{}/{}", hex(l.0.as_ref()), hex(&l.4[..l.4.len().min(2)]))).collect();
            let infos: Vec<AccountInfo> = list.iter_mut().map(|(k, s, w, o, d, l)| AccountInfo::new(k, *s, *w, l, d, o, false, 0)).collect();
            RECORD.with(|r| r.borrow_mut().clear());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.process)(&unhex(a[1]), &infos)));
            let r = match r { Ok(Some(Ok(()))) => "ok", Ok(Some(Err(_))) => "err", Ok(None) => "unknown", Err(_) => "panic" };
            format!("{r} | {} | {}", keys.join(" "), RECORD.with(|r| r.borrow().join(" ")))
        }
        "build" => {
            // build V fields.. ; keys.. ; expected metas..
            let parts: Vec<&[&str]> = a[2..].split(|x| *x == ";").collect();
            let f: Vec<Vec<u8>> = parts[0].iter().map(|x| unhex(x)).collect();
            let k: Vec<Pubkey> = parts[1].iter().map(|x| resolve(x).0).collect();
            let i = (c.build)(n(1), &f, &k);
            let want: Vec<String> = parts[2].iter().map(|x| { let p: Vec<&str> = x.split('/').collect(); format!("{}/{}/{}", hex(resolve(p[0]).0.as_ref()), p[1], p[2]) }).collect();
            let got: Vec<String> = i.accounts.iter().map(|m| format!("{}/{}/{}", hex(m.pubkey.as_ref()), m.is_signer as u8, m.is_writable as u8)).collect();
            format!("{} {} {}", i.program_id == program(), hex(&i.data), want == got)
        }
        "index" => (c.index)(n(1)).to_string(),
        "id" => (crate::id() == program() && crate::PROGRAM_ID == program()).to_string(),
        _ => panic!("harness"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let k: usize = std::env::args().nth(1).unwrap().parse().unwrap();
    let c = case(k);
    for line in std::io::stdin().lines() {
        let line = line.unwrap();
        let a: Vec<&str> = line.split(' ').collect();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&c, &a))) { Ok(s) => println!("{s}"), Err(_) => println!("panic") }
    }
}
