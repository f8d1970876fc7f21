//! The warden network: builders of its instructions and a reference model which predicts the exact bytes of every account of the program.
use elusiv_types::accounts::PDAAccount;
pub use elusiv_types::accounts::SizedAccount;
pub use elusiv_warden_network::{apa::*, network::*, operator::*, warden::*};
pub use pbt::*;
pub use solana_program::instruction::{AccountMeta, Instruction};
pub use solana_program::pubkey::Pubkey;
pub use solana_program::{system_program, sysvar};
use std::cell::RefCell;
pub use std::collections::{BTreeMap, BTreeSet};
pub use svm::{rent_exempt, Svm};

pub const TOKENS: usize = 12;
pub fn pid() -> Pubkey { elusiv_warden_network::id() }
/// the elusiv program (testnet, the default of the repository)
pub fn elusiv_id() -> Pubkey { "HMr2Y6Gkjvy42y1iAPEbRKz5o7WEFPHBvagHQYR581UB".parse().unwrap() }
pub fn user(name: &str) -> Pubkey {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&fnv(name.as_bytes()).to_le_bytes());
    b[8..16].copy_from_slice(&fnv(format!("{name}/").as_bytes()).to_le_bytes());
    b[31] = 9;
    Pubkey::new_from_array(b)
}

thread_local! { static PDAS: RefCell<BTreeMap<(Vec<u8>, Option<Pubkey>, Option<u32>), (Pubkey, u8)>> = Default::default(); }
pub fn pda<T: PDAAccount>(of: Option<Pubkey>, at: Option<u32>) -> (Pubkey, u8) {
    let k = (T::SEED.to_vec(), of, at);
    if let Some(x) = PDAS.with(|c| c.borrow().get(&k).copied()) { return x }
    let x = match of { Some(p) => T::find_with_pubkey(p, at), None => T::find(at) };
    PDAS.with(|c| c.borrow_mut().insert(k, x));
    x
}
pub fn at<T: PDAAccount>(of: Option<Pubkey>, off: Option<u32>) -> Pubkey { pda::<T>(of, off).0 }
pub fn head<T: PDAAccount>(of: Option<Pubkey>, off: Option<u32>) -> Vec<u8> { vec![pda::<T>(of, off).1, 0] }

pub fn wardens_acc() -> Pubkey { at::<WardensAccount>(None, None) }
pub fn network_acc() -> Pubkey { at::<BasicWardenNetworkAccount>(None, None) }
pub fn apa_acc() -> Pubkey { at::<ApaWardenNetworkAccount>(None, None) }
pub fn proposals_acc() -> Pubkey { at::<ApaProposalsAccount>(None, None) }
pub fn warden_acc(id: u32) -> Pubkey { at::<BasicWardenAccount>(None, Some(id)) }
pub fn map_acc(key: Pubkey) -> Pubkey { at::<BasicWardenMapAccount>(Some(key), None) }
pub fn stats_acc(key: Pubkey, year: u16) -> Pubkey { at::<BasicWardenStatsAccount>(Some(key), Some(year as u32)) }
pub fn operator_acc(key: Pubkey) -> Pubkey { at::<WardenOperatorAccount>(Some(key), None) }
pub fn attester_acc(key: Pubkey) -> Pubkey { at::<BasicWardenAttesterMapAccount>(Some(key), None) }
pub fn apa_warden_acc(id: u32) -> Pubkey { at::<ApaWardenAccount>(None, Some(id)) }
pub fn proposal_acc(id: u32) -> Pubkey { at::<ApaProposalAccount>(None, Some(id)) }
pub fn target_acc(key: Pubkey) -> Pubkey { at::<ApaTargetMapAccount>(Some(key), None) }

/// the number of members of the basic network, from the size of its account
pub fn capacity() -> usize { (BasicWardenNetworkAccount::SIZE - 6) / (4 + 3 + TOKENS + 1) }

// ---- the data of wardens ----

#[derive(Clone, PartialEq, Debug)]
pub struct Text<const N: usize> { pub len: u64, pub data: [u8; N] }
impl<const N: usize> Text<N> {
    pub fn gen(s: &mut Src) -> Self {
        let mut data = [0; N];
        // (the program does not interpret it: any content)
        let n = match s.below(4) { 0 => 0, 1 => N, _ => s.below(N + 1) };
        let (a, b) = (s.u8(), s.u8());
        for (i, x) in data.iter_mut().enumerate().take(n) { *x = a.wrapping_add(b.wrapping_mul(i as u8)); }
        Text { len: if s.chance(1, 20) { s.u64_edge() } else { n as u64 }, data }
    }
    pub fn put(&self, v: &mut Vec<u8>) { v.extend(self.len.to_le_bytes()); v.extend(self.data) }
}
pub fn put_opt(v: &mut Vec<u8>, o: Option<&[u8]>, size: usize) { match o { Some(x) => { v.push(1); v.extend(x) } None => v.extend(vec![0; 1 + size]) } }

#[derive(Clone, PartialEq, Debug)]
pub struct Config {
    pub ident: Text<256>, pub key: Pubkey, pub operator: Option<Pubkey>, pub addr: [u8; 4], pub rpc_port: u16, pub tls: u8, pub proxy: bool,
    pub jurisdiction: u16, pub tz_area: u8, pub tz_loc: Text<14>, pub region: u8, pub version: [u16; 3], pub platform: Text<256>,
    pub apa: bool, pub attestation: bool, pub features: [bool; 3], pub tokens: [bool; TOKENS],
}
impl Config {
    pub fn gen(s: &mut Src, key: Pubkey, operator: Option<Pubkey>) -> Self {
        let mut tokens = [false; TOKENS];
        for t in tokens.iter_mut() { *t = s.bool() }
        Config {
            ident: Text::gen(s), key, operator, addr: s.bytes(), rpc_port: s.u64() as u16, tls: s.below(3) as u8, proxy: s.bool(), jurisdiction: s.u64() as u16,
            tz_area: s.below(11) as u8, tz_loc: Text::gen(s), region: s.below(7) as u8, version: [s.u64() as u16, s.u64() as u16, s.u64() as u16], platform: Text::gen(s),
            apa: s.bool(), attestation: false, features: [s.bool(), s.bool(), s.bool()], tokens,
        }
    }
    pub fn gen_small(key: Pubkey) -> Self {
        let t = Text { len: 0, data: [0; 256] };
        Config { ident: t.clone(), key, operator: None, addr: [0; 4], rpc_port: 0, tls: 0, proxy: false, jurisdiction: 0, tz_area: 0, tz_loc: Text { len: 0, data: [0; 14] }, region: 0, version: [0; 3], platform: t, apa: false, attestation: false, features: [false; 3], tokens: [false; TOKENS] }
    }
    pub fn put(&self, v: &mut Vec<u8>) {
        self.ident.put(v);
        v.extend(self.key.to_bytes());
        put_opt(v, self.operator.as_ref().map(|k| k.as_ref()), 32);
        v.extend(self.addr);
        v.extend(self.rpc_port.to_le_bytes());
        v.push(self.tls);
        v.push(self.proxy as u8);
        v.extend(self.jurisdiction.to_le_bytes());
        v.push(self.tz_area);
        self.tz_loc.put(v);
        v.push(self.region);
        for x in self.version { v.extend(x.to_le_bytes()) }
        self.platform.put(v);
        v.extend([self.apa as u8, self.attestation as u8]);
        v.extend(self.features.map(|b| b as u8));
        v.extend(self.tokens.map(|b| b as u8));
    }
}
#[derive(Clone, PartialEq, Debug)]
pub struct Warden { pub config: Config, pub lut: Pubkey, pub asn: Option<u32>, pub op_confirmed: bool, pub meta_valid: Option<bool>, pub active: bool, pub join: u64, pub activation: u64 }
impl Warden {
    pub fn new(config: Config, now: u64) -> Self { Warden { config, lut: Pubkey::new_from_array([0; 32]), asn: None, op_confirmed: false, meta_valid: None, active: false, join: now, activation: now } }
    pub fn bytes(&self, id: u32) -> Vec<u8> {
        let mut v = head::<BasicWardenAccount>(None, Some(id));
        self.config.put(&mut v);
        v.extend(self.lut.to_bytes());
        put_opt(&mut v, self.asn.map(|a| a.to_le_bytes()).as_ref().map(|a| &a[..]), 4);
        v.push(self.op_confirmed as u8);
        put_opt(&mut v, self.meta_valid.map(|a| [a as u8]).as_ref().map(|a| &a[..]), 1);
        v.push(self.active as u8);
        v.extend(self.join.to_le_bytes());
        v.extend(self.activation.to_le_bytes());
        v
    }
}
#[derive(Clone, PartialEq, Debug)]
pub struct Member { pub id: u32, pub features: [bool; 3], pub tokens: [bool; TOKENS], pub region: u8 }
pub fn network_bytes(m: &[Member]) -> Vec<u8> {
    let n = capacity();
    let mut v = head::<BasicWardenNetworkAccount>(None, None);
    v.extend((m.len() as u32).to_le_bytes());
    let mut col = |w: usize, f: &dyn Fn(&Member) -> Vec<u8>| { for x in m { v.extend(f(x)) } v.extend(vec![0; (n - m.len()) * w]) };
    col(4, &|x| x.id.to_le_bytes().to_vec());
    col(3, &|x| x.features.map(|b| b as u8).to_vec());
    col(TOKENS, &|x| x.tokens.map(|b| b as u8).to_vec());
    col(1, &|x| vec![x.region]);
    v
}

// ---- instructions ----

fn w(k: Pubkey) -> AccountMeta { AccountMeta::new(k, false) }
fn r(k: Pubkey) -> AccountMeta { AccountMeta::new_readonly(k, false) }
fn sw(k: Pubkey) -> AccountMeta { AccountMeta::new(k, true) }
fn sr(k: Pubkey) -> AccountMeta { AccountMeta::new_readonly(k, true) }
fn sys() -> AccountMeta { r(system_program::ID) }
fn ix(tag: u8, accounts: Vec<AccountMeta>, data: impl FnOnce(&mut Vec<u8>)) -> Instruction { let mut d = vec![tag]; data(&mut d); Instruction { program_id: pid(), accounts, data: d } }
fn u32s(v: &mut Vec<u8>, x: u32) { v.extend(x.to_le_bytes()) }

pub fn init(payer: Pubkey) -> Instruction { ix(0, vec![sw(payer), w(wardens_acc()), w(network_acc()), w(apa_acc()), w(proposals_acc()), sys()], |_| {}) }
pub fn register(signer: Pubkey, id: u32, c: &Config) -> Instruction {
    ix(1, vec![sw(signer), w(warden_acc(id)), w(map_acc(c.key)), w(wardens_acc()), w(network_acc()), sys()], |v| { u32s(v, id); c.put(v) })
}
pub fn update_state(signer: Pubkey, id: u32, active: bool) -> Instruction { ix(2, vec![sr(signer), w(warden_acc(id))], |v| { u32s(v, id); v.push(active as u8) }) }
pub fn update_lut(signer: Pubkey, id: u32, lut: Pubkey) -> Instruction { ix(3, vec![sr(signer), w(warden_acc(id)), r(lut)], |v| u32s(v, id)) }
pub fn apa_start(signer: Pubkey, id: u32, q: &[u8]) -> Instruction { ix(4, vec![sw(signer), r(map_acc(signer)), w(apa_warden_acc(id)), w(apa_acc()), sys()], |v| { u32s(v, id); v.extend(q) }) }
pub fn apa_complete(signer: Pubkey, id: u32, q: &[u8]) -> Instruction { ix(5, vec![sr(signer), r(map_acc(signer)), w(apa_acc())], |v| { u32s(v, id); v.extend(q) }) }
pub fn apa_confirm(signer: Pubkey, id: u32, m: [u8; 32]) -> Instruction { ix(6, vec![sr(signer), r(apa_warden_acc(id)), w(apa_acc())], |v| { u32s(v, id); v.extend(m) }) }
pub fn apa_finish() -> Instruction { ix(7, vec![], |_| {}) }
pub fn register_operator(signer: Pubkey, ident: &Text<256>, url: &Text<256>, j: Option<u16>) -> Instruction {
    ix(8, vec![sw(signer), w(operator_acc(signer)), sys()], |v| { ident.put(v); url.put(v); match j { Some(j) => { v.push(1); v.extend(j.to_le_bytes()) } None => v.push(0) } })
}
pub fn confirm_operation(signer: Pubkey, id: u32) -> Instruction { ix(9, vec![sr(signer), w(warden_acc(id))], |v| u32s(v, id)) }
pub fn open_stats(key: Pubkey, payer: Pubkey, year: u16) -> Instruction { ix(10, vec![r(key), sw(payer), w(stats_acc(key, year)), sys()], |v| v.extend(year.to_le_bytes())) }
pub fn track(key: Pubkey, year: u16, can_fail: bool) -> Instruction { ix(11, vec![r(key), w(stats_acc(key, year)), r(sysvar::instructions::ID)], |v| { v.extend(year.to_le_bytes()); v.push(can_fail as u8) }) }
pub fn propose(signer: Pubkey, id: u32, target: Pubkey, mint: Pubkey, proposal: &[u8]) -> Instruction {
    ix(12, vec![sw(signer), w(proposal_acc(id)), w(proposals_acc()), w(target_acc(target)), r(mint), sys()], |v| { u32s(v, id); v.extend(proposal) })
}
pub fn add_attester(signer: Pubkey, id: u32, attester: Pubkey) -> Instruction { ix(13, vec![sw(signer), w(attester_acc(attester)), w(warden_acc(id)), sys()], |v| { u32s(v, id); v.extend(attester.to_bytes()) }) }
pub fn revoke_attester(signer: Pubkey, id: u32, attester: Pubkey) -> Instruction { ix(14, vec![sw(signer), r(attester), w(attester_acc(attester)), w(warden_acc(id)), sys()], |v| u32s(v, id)) }
#[derive(Clone, Debug)]
pub struct Metadata { pub asn: Option<u32>, pub tz_area: u8, pub tz_loc: Text<14>, pub region: u8, pub proxy: bool }
pub fn attest(signer: Pubkey, by: u32, id: u32, index: u32, m: &Metadata) -> Instruction {
    ix(15, vec![sr(signer), r(warden_acc(by)), w(warden_acc(id)), w(network_acc())], |v| {
        u32s(v, by); u32s(v, id); u32s(v, index);
        match m.asn { Some(a) => { v.push(1); u32s(v, a) } None => v.push(0) }
        v.push(m.tz_area); m.tz_loc.put(v); v.push(m.region); v.push(m.proxy as u8);
    })
}
pub fn close(signer: Pubkey, recipient: Pubkey, account: Pubkey) -> Instruction { ix(16, vec![sr(signer), w(recipient), w(account), sys()], |_| {}) }

// ---- the world ----

#[derive(Clone)]
pub struct World {
    pub svm: Svm,
    /// expected content of every account of the program
    pub exp: BTreeMap<Pubkey, Vec<u8>>,
    pub lam: BTreeMap<Pubkey, u64>,
    pub wardens: Vec<Warden>,
    pub net: Vec<Member>,
    pub next: u32,
}
impl World {
    /// nothing but funded users and the program
    pub fn empty(people: &[Pubkey]) -> Self {
        let mut svm = Svm::new(&[(pid(), elusiv_warden_network::process_instruction)]);
        svm.clock.unix_timestamp = 1_700_000_000;
        for p in people { svm.airdrop(p, 1_000_000_000_000); }
        let mut me = World { svm, exp: Default::default(), lam: Default::default(), wardens: vec![], net: vec![], next: 0 };
        me.sync();
        me
    }
    pub fn sync(&mut self) { self.lam = self.svm.accounts.iter().map(|(k, a)| (*k, a.lamports)).collect(); }
    /// the initial accounts
    pub fn initial() -> Vec<(Pubkey, Vec<u8>)> {
        let mut a = vec![
            (wardens_acc(), head::<WardensAccount>(None, None), WardensAccount::SIZE), (network_acc(), head::<BasicWardenNetworkAccount>(None, None), BasicWardenNetworkAccount::SIZE),
            (apa_acc(), head::<ApaWardenNetworkAccount>(None, None), ApaWardenNetworkAccount::SIZE), (proposals_acc(), head::<ApaProposalsAccount>(None, None), ApaProposalsAccount::SIZE),
        ];
        for x in a.iter_mut() { x.1.resize(x.2, 0) }
        a.into_iter().map(|x| (x.0, x.1)).collect()
    }
    pub fn new(people: &[Pubkey]) -> Self {
        let mut me = Self::empty(people);
        let mut payer = people[0];
        if people.is_empty() { payer = user("init") }
        let _ = me.svm.tx(&[init(payer)], &[payer]);
        me.exp = Self::initial().into_iter().collect();
        // (P23 decides whether that works)
        for (k, d) in me.exp.clone() { me.svm.put_exempt(k, pid(), d); }
        me.sync();
        me
    }
    pub fn now(&self) -> u64 { self.svm.clock.unix_timestamp as u64 }
    pub fn elapse(&mut self, s: &mut Src) {
        let d = match s.below(6) { 0 => 1, 1 => s.range(1, 100), 2 => s.range(1, 400 * 86_400), _ => 0 };
        self.svm.clock.unix_timestamp += d as i64;
    }
    pub fn set_warden(&mut self, id: u32) { let d = self.wardens[id as usize].bytes(id); self.exp.insert(warden_acc(id), d); }
    /// (what the world does besides the program) writes the model into the accounts
    pub fn force(&mut self, k: Pubkey) { let d = self.exp[&k].clone(); self.svm.put_exempt(k, pid(), d); let l = self.svm.lamports(&k); self.lam.insert(k, l); }
    pub fn set_next(&mut self, n: u32) { self.next = n; let mut v = head::<WardensAccount>(None, None); v.extend(n.to_le_bytes()); self.exp.insert(wardens_acc(), v); }
    pub fn set_net(&mut self) { let v = network_bytes(&self.net); self.exp.insert(network_acc(), v); }
    /// `payer` creates the account
    pub fn create(&mut self, payer: Pubkey, k: Pubkey, data: Vec<u8>) {
        let has = self.lam.get(&k).copied().unwrap_or(0);
        let cost = rent_exempt(data.len()).saturating_sub(has);
        *self.lam.get_mut(&payer).unwrap() -= cost;
        *self.lam.entry(k).or_default() += cost;
        self.exp.insert(k, data);
    }
    /// can the payer create new accounts of these sizes?
    pub fn affords(&self, payer: Pubkey, new: &[(Pubkey, usize)]) -> bool {
        let cost: u64 = new.iter().map(|(k, n)| rent_exempt(*n).saturating_sub(self.lam.get(k).copied().unwrap_or(0))).sum();
        let has = self.lam.get(&payer).copied().unwrap_or(0);
        has >= cost && (has == cost || has - cost >= rent_exempt(0))
    }
    pub fn free(&self, k: &Pubkey) -> bool { !self.exp.contains_key(k) }
    /// Lamports at an address which does not exist yet
    pub fn prefund(&mut self, s: &mut Src, k: Pubkey, size: usize) {
        if self.svm.exists(&k) { return }
        let l = s.pick(&[rent_exempt(0), rent_exempt(0) + 1, rent_exempt(size) - 1, rent_exempt(size), rent_exempt(size) + 12345]);
        self.svm.airdrop(&k, l);
        self.lam.insert(k, l);
        s.label("address funded in advance");
    }
    /// executes the transaction, which has to succeed exactly if `should`, with the given effect
    pub fn attempt(&mut self, s: &mut Src, what: &str, ixs: &[Instruction], signers: &[Pubkey], should: bool, effect: impl FnOnce(&mut World)) -> Result<bool, Fail> {
        let r = self.svm.tx(ixs, signers);
        let ok = r.is_ok();
        s.log(|| format!("{what} -> {ok}{}", if ok { String::new() } else { format!(" ({r:?})") }));
        check!(ok == should, if ok { "accepted" } else { "refused" }, "{what}: success = {ok}, expected {should} ({r:?})");
        if ok { effect(self); s.label(what.split(' ').next().unwrap()); }
        self.compare(what)?;
        Ok(ok)
    }
    pub fn compare(&self, what: &str) -> Res {
        for (k, d) in &self.exp {
            let a = self.svm.data(k);
            check!(self.svm.owner(k) == pid(), "owner", "after {what}: {} does not exist", self.name(k));
            check!(a == &d[..], "content", "after {what}: {} differs from byte {:?} on (size {}, expected {}; {:?} instead of {:?})", self.name(k), a.iter().zip(d).position(|(a, b)| a != b), a.len(), d.len(), a.iter().zip(d).filter(|(a, b)| a != b).map(|x| *x.0).take(40).collect::<Vec<u8>>(), a.iter().zip(d).filter(|(a, b)| a != b).map(|x| *x.1).take(40).collect::<Vec<u8>>());
        }
        for (k, a) in &self.svm.accounts {
            check!(a.owner != pid() || self.exp.contains_key(k), "appeared", "after {what}: unexpected account {}", self.name(k));
            check!(a.lamports == self.lam.get(k).copied().unwrap_or(0), "lamports", "after {what}: {} holds {}, expected {}", self.name(k), a.lamports, self.lam.get(k).copied().unwrap_or(0));
        }
        for (k, l) in &self.lam { check!(self.svm.lamports(k) == *l, "lamports", "after {what}: {} holds {}, expected {l}", self.name(k), self.svm.lamports(k)); }
        Ok(())
    }
    pub fn name(&self, k: &Pubkey) -> String {
        for (n, x) in [("the wardens account", wardens_acc()), ("the network account", network_acc()), ("the APA network account", apa_acc()), ("the proposals account", proposals_acc())] { if x == *k { return n.into() } }
        for i in 0..self.wardens.len() as u32 { if warden_acc(i) == *k { return format!("the account of warden {i}") } if map_acc(self.wardens[i as usize].config.key) == *k { return format!("the map account of warden {i}") } }
        k.to_string()
    }
    /// registers directly in the model and the accounts
    pub fn enroll(&mut self, c: Config) -> u32 {
        let id = self.next;
        self.net.push(Member { id, features: c.features, tokens: c.tokens, region: c.region });
        let mut v = head::<BasicWardenMapAccount>(Some(c.key), None);
        v.extend(id.to_le_bytes());
        let key = c.key;
        self.wardens.push(Warden::new(c, self.now()));
        self.set_warden(id);
        self.exp.insert(map_acc(key), v);
        self.set_next(id + 1);
        self.set_net();
        for k in [warden_acc(id), map_acc(key), wardens_acc(), network_acc()] { self.force(k); }
        id
    }
}
/// another account in the place of one, or a signature missing; `free`: accounts that may be anything
pub fn tamper(s: &mut Src, i: &mut Instruction, signers: &mut Vec<Pubkey>, free: &[usize], pool: &[Pubkey]) -> bool {
    if s.chance(1, 12) {
        if let Some(p) = i.accounts.iter().position(|a| a.is_signer) {
            let k = i.accounts[p].pubkey;
            i.accounts[p].is_signer = false;
            signers.retain(|x| *x != k);
            s.label("unsigned");
            return true;
        }
    }
    // (a key that differs in a single bit)
    if s.chance(1, 24) {
        if let Some(p) = i.accounts.iter().position(|a| a.is_signer).filter(|p| !free.contains(p)) {
            let k = i.accounts[p].pubkey;
            let mut b = k.to_bytes();
            let x = if s.bool() { 31 } else { s.below(32) };
            b[x] ^= 1 << s.below(8);
            let near = Pubkey::new_from_array(b);
            i.accounts[p].pubkey = near;
            signers.iter_mut().for_each(|y| if *y == k { *y = near });
            s.label("similar signer");
            return true;
        }
    }
    if s.chance(1, 8) && !i.accounts.is_empty() {
        let p = s.below(i.accounts.len());
        if free.contains(&p) || i.accounts[p].is_signer { return false }
        let k = s.pick(pool);
        if i.accounts[p].pubkey == k { return false }
        s.log(|| format!("account {p}: {k} instead of {}", i.accounts[p].pubkey));
        i.accounts[p].pubkey = k;
        s.label("other account");
        return true;
    }
    false
}
