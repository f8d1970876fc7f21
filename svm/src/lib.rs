//! A small in-process stand-in for the Solana runtime (native execution, 1.10 semantics).
//!
//! Implements what the programs under test rely on: atomic transactions, signer/writable privileges, account ownership
//! rules, lamport conservation, rent-state transitions, CPI (System, SPL-Token, ATA) with PDA signers, sysvars.
//! Compute-unit, heap, stack and transaction-size limits are not modelled.

use solana_program::account_info::AccountInfo;
use solana_program::clock::Clock;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::system_instruction::SystemInstruction;
use solana_program::sysvar::instructions::{construct_instructions_data, store_current_index, BorrowedAccountMeta, BorrowedInstruction};
use solana_program::{system_program, sysvar};
use std::sync::Arc;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type ProcessFn = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Account {
    pub lamports: u64,
    pub owner: Pubkey,
    /// shared between clones until it is written to
    pub data: Arc<Vec<u8>>,
}

impl Default for Account {
    fn default() -> Self { Account { lamports: 0, owner: system_program::ID, data: Default::default() } }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TxError {
    /// The program returned an error
    Program(usize, ProgramError),
    /// The program panicked (aborts the transaction on chain)
    Panic(usize, String),
    /// The runtime rejects the transaction
    Runtime(usize, String),
}

impl TxError {
    pub fn ix(&self) -> usize { match self { TxError::Program(i, _) | TxError::Panic(i, _) | TxError::Runtime(i, _) => *i } }
    pub fn is_runtime(&self) -> bool { matches!(self, TxError::Runtime(..)) }
    pub fn is_panic(&self) -> bool { matches!(self, TxError::Panic(..)) }
}

pub type TxResult = Result<(), TxError>;

#[derive(Clone, Default)]
pub struct Svm {
    pub accounts: BTreeMap<Pubkey, Account>,
    pub clock: Clock,
    programs: BTreeMap<Pubkey, ProcessFn>,
}

pub fn memo_id() -> Pubkey { "MemoSq4gqABAXKb96qnH8TysNcWxMyWCqXgDLGmfcHr".parse().unwrap() }
pub fn compute_budget_id() -> Pubkey { "ComputeBudget111111111111111111111111111111".parse().unwrap() }

const SMALL: usize = 64 * 1024;
const CPI_DATA_LIMIT: usize = 10 * 1024;

struct Slot {
    key: Box<Pubkey>,
    owner: Box<Pubkey>,
    lamports: Box<u64>,
    data: Arc<Vec<u8>>,
    writable: bool,
    signer: bool,
    original_len: usize,
    info: Option<AccountInfo<'static>>,
    // verification snapshot (state after the last verified program step)
    snap_lamports: u64,
    snap_owner: Pubkey,
    snap_data: Option<Vec<u8>>,
    /// checksum of a large readonly account
    sum: Option<u64>,
}

struct Ctx {
    slots: BTreeMap<Pubkey, Slot>,
    programs: BTreeMap<Pubkey, ProcessFn>,
    stack: Vec<Pubkey>,
    runtime_error: Option<String>,
    return_data: Option<(Pubkey, Vec<u8>)>,
    clock: Clock,
    grown: Vec<*mut [u8]>,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = RefCell::new(None);
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
    static QUIET: Cell<bool> = Cell::new(false);
}

fn with_ctx<T>(f: impl FnOnce(&mut Ctx) -> T) -> T {
    CTX.with(|c| f(c.borrow_mut().as_mut().expect("no transaction context")))
}

fn err(msg: impl Into<String>) -> ProgramError {
    let msg = msg.into();
    with_ctx(|c| { c.runtime_error.get_or_insert(msg); });
    ProgramError::Custom(0xdead_beef)
}

fn checksum(d: &[u8]) -> u64 {
    let mut l = [0u64; 4];
    let mut c = d.chunks_exact(32);
    // (of very large accounts only a sample)
    let every = if d.len() > 1 << 20 { 61 } else { 1 };
    for b in (&mut c).step_by(every) { for i in 0..4 { l[i] = l[i].rotate_left(1).wrapping_add(u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap())); } }
    let mut h = d.len() as u64;
    for b in c.remainder() { h = h.wrapping_mul(31).wrapping_add(*b as u64); }
    for x in l { h = h.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(x); }
    h
}

impl Slot {
    fn data_slice<'a>(&'a self) -> &'a [u8] {
        // the program may have replaced the slice (CPI growth)
        let info = self.info.as_ref().unwrap();
        let d = unsafe { &*info.data.as_ptr() };
        unsafe { std::slice::from_raw_parts(d.as_ptr(), d.len()) }
    }
    fn wants_snap(&self, program: &Pubkey) -> bool {
        // data which the currently executing program may not change
        // (large accounts are verified once per transaction)
        (*self.owner != *program || !self.writable) && self.data_slice().len() <= SMALL
    }
    fn snapshot(&mut self, program: &Pubkey) {
        self.snap_lamports = *self.lamports;
        self.snap_owner = *self.owner;
        self.snap_data = if self.wants_snap(program) { Some(self.data_slice().to_vec()) } else { None };
    }
    /// The runtime's per-account modification rules for `program`
    fn verify(&self, program: &Pubkey) -> Result<(), String> {
        let k = &*self.key;
        if *self.lamports != self.snap_lamports {
            if !self.writable { return Err(format!("readonly lamport change of {k}")); }
            if *self.lamports < self.snap_lamports && self.snap_owner != *program {
                return Err(format!("external account lamport spend of {k}"));
            }
        }
        if let Some(d) = &self.snap_data {
            if d.as_slice() != self.data_slice() {
                return Err(if self.writable { format!("external account data modified of {k}") } else { format!("readonly data modified of {k}") });
            }
        }
        if *self.owner != self.snap_owner && (self.snap_owner != *program || !self.writable || self.data_slice().iter().any(|b| *b != 0)) {
            return Err(format!("modified program id of {k}"));
        }
        Ok(())
    }
}

fn verify_all(ctx: &mut Ctx, program: &Pubkey) -> Result<(), String> {
    let (mut pre, mut post) = (0u128, 0u128);
    for s in ctx.slots.values() {
        pre += s.snap_lamports as u128;
        post += *s.lamports as u128;
    }
    if pre != post { return Err(format!("unbalanced instruction: {pre} -> {post}")); }
    for s in ctx.slots.values() { s.verify(program)?; }
    Ok(())
}

fn snapshot_all(ctx: &mut Ctx, program: &Pubkey) {
    for s in ctx.slots.values_mut() { s.snapshot(program); }
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) { if std::env::var_os("SVM_LOG").is_some() { println!("{m}"); } }
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, v: *mut u8) -> u64 {
        CTX.with(|c| match c.borrow().as_ref() {
            Some(c) => unsafe { *(v as *mut Clock) = c.clock.clone(); },
            None => unsafe { *(v as *mut Clock) = Clock::default(); },
        });
        0
    }
    fn sol_get_rent_sysvar(&self, v: *mut u8) -> u64 { unsafe { *(v as *mut Rent) = Rent::default(); } 0 }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> { with_ctx(|c| c.return_data.clone()) }
    fn sol_set_return_data(&self, d: &[u8]) { with_ctx(|c| { let p = *c.stack.last().unwrap(); c.return_data = if d.is_empty() { None } else { Some((p, d.to_vec())) } }) }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult { cpi(ix, infos, seeds) }
}

pub fn init() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        set_syscall_stubs(Box::new(Stubs));
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if QUIET.with(|q| q.get()) { PANIC.with(|p| *p.borrow_mut() = Some(format!("{i}"))); } else { prev(i) }
        }));
    });
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let caller = with_ctx(|c| *c.stack.last().unwrap());
    // PDA signers
    let mut pda_signers = BTreeSet::new();
    for s in seeds {
        match Pubkey::create_program_address(s, &caller) {
            Ok(k) => { pda_signers.insert(k); }
            Err(_) => return Err(err("invalid signer seeds")),
        }
    }
    // the caller's changes so far have to be valid
    if let Err(e) = with_ctx(|c| verify_all(c, &caller)) { return Err(err(e)); }
    if with_ctx(|c| c.stack.len()) > 4 { return Err(err("call depth")); }

    // merge metas of duplicate accounts
    let mut metas: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    for m in &ix.accounts {
        let e = metas.entry(m.pubkey).or_insert((false, false));
        e.0 |= m.is_signer;
        e.1 |= m.is_writable;
    }
    let mut callee_infos: Vec<AccountInfo<'static>> = vec![];
    for m in &ix.accounts {
        let (signer, writable) = metas[&m.pubkey];
        let info = with_ctx(|c| c.slots.get(&m.pubkey).map(|s| (s.info.clone().unwrap(), s.signer, s.writable)));
        let Some((mut info, s, w)) = info else { return Err(err(format!("missing account {}", m.pubkey))) };
        // The caller's view of the account (an executable account needs no account-info)
        let caller_info = infos.iter().find(|i| *i.key == m.pubkey);
        let executable = info.executable;
        match caller_info {
            Some(ci) => {
                if writable && !(ci.is_writable && w) { return Err(err(format!("writable privilege escalated for {}", m.pubkey))); }
                if signer && !(s || ci.is_signer || pda_signers.contains(&m.pubkey)) { return Err(err(format!("signer privilege escalated for {}", m.pubkey))); }
            }
            None => {
                if !executable { return Err(err(format!("account info missing for {}", m.pubkey))); }
            }
        }
        info.is_signer = signer;
        info.is_writable = writable;
        callee_infos.push(info);
    }
    if with_ctx(|c| !c.slots.contains_key(&ix.program_id)) { return Err(err(format!("missing program account {}", ix.program_id))); }

    with_ctx(|c| { snapshot_all(c, &ix.program_id); c.stack.push(ix.program_id); c.return_data = None; });
    let r = dispatch(&ix.program_id, &callee_infos, &ix.data);
    drop(callee_infos);
    let r = r.and_then(|_| with_ctx(|c| verify_all(c, &ix.program_id)).map_err(err));
    with_ctx(|c| { c.stack.pop(); snapshot_all(c, &caller); });
    // a failed CPI aborts the transaction
    if r.is_err() { with_ctx(|c| { c.runtime_error.get_or_insert(format!("cpi failed: {r:?}")); }); }
    r
}

fn dispatch(program: &Pubkey, infos: &[AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    if *program == system_program::ID { return system(infos, data); }
    if *program == spl_token::ID { return spl_token::processor::Processor::process(program, infos, data); }
    if *program == spl_associated_token_account::ID { return spl_associated_token_account::processor::process_instruction(program, infos, data); }
    match with_ctx(|c| c.programs.get(program).copied()) {
        Some(f) => f(program, infos, data),
        None => Ok(()), // memo, compute-budget and other foreign programs
    }
}

fn grow(info: &AccountInfo<'static>, len: usize) -> Result<(), ProgramError> {
    let depth = with_ctx(|c| c.stack.len());
    let (key, old) = (*info.key, info.data_len());
    let original = with_ctx(|c| c.slots[&key].original_len);
    if depth > 1 && len > original + CPI_DATA_LIMIT { return Err(err("account data size realloc limited to 10240 in inner instructions")); }
    let mut v = vec![0u8; len];
    v[..old].copy_from_slice(&info.data.borrow());
    let p = Box::into_raw(v.into_boxed_slice());
    with_ctx(|c| c.grown.push(p));
    *info.data.borrow_mut() = unsafe { &mut *p };
    Ok(())
}

fn sys_transfer(from: &AccountInfo<'static>, to: &AccountInfo<'static>, lamports: u64) -> ProgramResult {
    if !from.is_signer { return Err(ProgramError::MissingRequiredSignature); }
    if !from.data_is_empty() { return Err(ProgramError::InvalidArgument); }
    if from.lamports() < lamports { return Err(ProgramError::Custom(1)); }
    **from.lamports.borrow_mut() -= lamports;
    **to.lamports.borrow_mut() += lamports;
    Ok(())
}

fn sys_allocate(a: &AccountInfo<'static>, space: u64) -> ProgramResult {
    if !a.is_signer { return Err(ProgramError::MissingRequiredSignature); }
    if !a.data_is_empty() || *a.owner != system_program::ID { return Err(ProgramError::Custom(0)); }
    if space > 10 * 1024 * 1024 { return Err(ProgramError::Custom(3)); }
    grow(a, space as usize)
}

fn sys_assign(a: &AccountInfo<'static>, owner: &Pubkey) -> ProgramResult {
    if a.owner == owner { return Ok(()); }
    if !a.is_signer { return Err(ProgramError::MissingRequiredSignature); }
    a.assign(owner);
    Ok(())
}

fn system(infos: &[AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    let ix: SystemInstruction = bincode::deserialize(data).map_err(|_| ProgramError::InvalidInstructionData)?;
    let acc = |i: usize| infos.get(i).ok_or(ProgramError::NotEnoughAccountKeys);
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            let (from, to) = (acc(0)?, acc(1)?);
            if to.lamports() > 0 { return Err(ProgramError::Custom(0)); }
            sys_allocate(to, space)?;
            sys_assign(to, &owner)?;
            sys_transfer(from, to, lamports)
        }
        SystemInstruction::Transfer { lamports } => sys_transfer(acc(0)?, acc(1)?, lamports),
        SystemInstruction::Allocate { space } => sys_allocate(acc(0)?, space),
        SystemInstruction::Assign { owner } => sys_assign(acc(0)?, &owner),
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

pub fn rent_exempt(len: usize) -> u64 { Rent::default().minimum_balance(len) }

fn rent_paying(lamports: u64, len: usize) -> bool { lamports > 0 && lamports < rent_exempt(len) }

impl Svm {
    pub fn new(programs: &[(Pubkey, ProcessFn)]) -> Self {
        init();
        Svm { programs: programs.iter().cloned().collect(), ..Default::default() }
    }

    pub fn register(&mut self, id: Pubkey, f: ProcessFn) { self.programs.insert(id, f); }
    pub fn get(&self, k: &Pubkey) -> Account { self.accounts.get(k).cloned().unwrap_or_default() }
    pub fn data(&self, k: &Pubkey) -> &[u8] { self.accounts.get(k).map(|a| a.data.as_slice()).unwrap_or(&[]) }
    pub fn data_mut(&mut self, k: &Pubkey) -> &mut Vec<u8> { Arc::make_mut(&mut self.accounts.get_mut(k).expect("account").data) }
    pub fn lamports(&self, k: &Pubkey) -> u64 { self.accounts.get(k).map(|a| a.lamports).unwrap_or(0) }
    pub fn owner(&self, k: &Pubkey) -> Pubkey { self.accounts.get(k).map(|a| a.owner).unwrap_or(system_program::ID) }
    pub fn exists(&self, k: &Pubkey) -> bool { self.accounts.get(k).map(|a| a.lamports > 0).unwrap_or(false) }
    pub fn put(&mut self, k: Pubkey, owner: Pubkey, lamports: u64, data: Vec<u8>) { self.accounts.insert(k, Account { lamports, owner, data: Arc::new(data) }); }
    /// A rent-exempt account
    pub fn put_exempt(&mut self, k: Pubkey, owner: Pubkey, data: Vec<u8>) { let l = rent_exempt(data.len()); self.put(k, owner, l, data) }
    pub fn airdrop(&mut self, k: &Pubkey, lamports: u64) { self.accounts.entry(*k).or_default().lamports += lamports; }

    pub fn token_balance(&self, k: &Pubkey) -> u64 {
        use solana_program::program_pack::Pack;
        spl_token::state::Account::unpack(self.data(k)).map(|a| a.amount).unwrap_or(0)
    }
    pub fn put_mint(&mut self, mint: Pubkey, decimals: u8) {
        use solana_program::program_pack::Pack;
        let mut d = vec![0; spl_token::state::Mint::LEN];
        spl_token::state::Mint { is_initialized: true, decimals, supply: u64::MAX, ..Default::default() }.pack_into_slice(&mut d);
        self.put_exempt(mint, spl_token::ID, d);
    }
    pub fn put_token_account(&mut self, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
        use solana_program::program_pack::Pack;
        let mut d = vec![0; spl_token::state::Account::LEN];
        spl_token::state::Account { mint, owner, amount, state: spl_token::state::AccountState::Initialized, ..Default::default() }.pack_into_slice(&mut d);
        self.put_exempt(k, spl_token::ID, d);
    }

    /// Executes a single transaction atomically
    pub fn tx(&mut self, ixs: &[Instruction], signers: &[Pubkey]) -> TxResult {
        // message-level privileges
        let mut flags: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for ix in ixs {
            for m in &ix.accounts {
                let e = flags.entry(m.pubkey).or_insert((false, false));
                e.0 |= m.is_signer;
                e.1 |= m.is_writable;
            }
            flags.entry(ix.program_id).or_insert((false, false));
        }
        for s in signers { if let Some(f) = flags.get_mut(s) { f.0 = true; } }
        for (k, (s, w)) in flags.iter_mut() {
            if *s && !signers.contains(k) { return Err(TxError::Runtime(0, format!("missing signature of {k}"))); }
            if ixs.iter().any(|i| i.program_id == *k) || sysvar::is_sysvar_id(k) || *k == system_program::ID || *k == spl_token::ID || *k == spl_associated_token_account::ID { *w = false; }
        }

        // take the accounts and keep what a rollback needs
        let mut undo: Vec<(Pubkey, Option<Account>)> = vec![];
        let mut pre_rent: BTreeMap<Pubkey, (u64, usize)> = BTreeMap::new();
        let mut slots = BTreeMap::new();
        let borrowed: Vec<BorrowedInstruction> = ixs.iter().map(|ix| BorrowedInstruction {
            program_id: &ix.program_id,
            accounts: ix.accounts.iter().map(|m: &AccountMeta| { let f = flags[&m.pubkey]; BorrowedAccountMeta { pubkey: &m.pubkey, is_signer: f.0, is_writable: f.1 } }).collect(),
            data: &ix.data,
        }).collect();
        for (k, (signer, writable)) in &flags {
            let mut executable = *k == system_program::ID || *k == spl_token::ID || *k == spl_associated_token_account::ID || self.programs.contains_key(k) || *k == memo_id();
            let existed = self.accounts.contains_key(k);
            let mut acc = match self.accounts.get_mut(k) {
                Some(a) => Account { lamports: a.lamports, owner: a.owner, data: a.data.clone() },
                None => Account::default(),
            };
            if *writable { undo.push((*k, if existed { Some(acc.clone()) } else { None })); }
            if *k == sysvar::instructions::ID {
                acc = Account { lamports: 1, owner: sysvar::ID, data: Arc::new(construct_instructions_data(&borrowed)) };
                executable = false;
            }
            pre_rent.insert(*k, (acc.lamports, acc.data.len()));
            let mut slot = Slot { key: Box::new(*k), owner: Box::new(acc.owner), lamports: Box::new(acc.lamports), original_len: acc.data.len(), data: acc.data, writable: *writable, signer: *signer, info: None, snap_lamports: 0, snap_owner: Pubkey::default(), snap_data: None, sum: None };
            if !*writable && slot.data.len() > SMALL { slot.sum = Some(checksum(&slot.data)); }
            unsafe {
                let key: &'static Pubkey = &*(&*slot.key as *const Pubkey);
                let owner: &'static Pubkey = &*(&*slot.owner as *const Pubkey);
                let lamports: &'static mut u64 = &mut *(&mut *slot.lamports as *mut u64);
                // (what may not be written is shared, the rules above report a write)
                let ptr = if *writable || *k == sysvar::instructions::ID { Arc::make_mut(&mut slot.data).as_mut_ptr() } else { slot.data.as_ptr() as *mut u8 };
                let data: &'static mut [u8] = std::slice::from_raw_parts_mut(ptr, slot.data.len());
                slot.info = Some(AccountInfo::new(key, *signer, *writable, lamports, data, owner, executable, 0));
            }
            slots.insert(*k, slot);
        }
        CTX.with(|c| *c.borrow_mut() = Some(Ctx { slots, programs: self.programs.clone(), stack: vec![], runtime_error: None, return_data: None, clock: self.clock.clone(), grown: vec![] }));

        let mut result: TxResult = Ok(());
        for (i, ix) in ixs.iter().enumerate() {
            let infos: Vec<AccountInfo<'static>> = with_ctx(|c| {
                if let Some(s) = c.slots.get_mut(&sysvar::instructions::ID) { store_current_index(Arc::make_mut(&mut s.data).as_mut_slice(), i as u16); }
                c.stack = vec![ix.program_id];
                c.return_data = None;
                snapshot_all(c, &ix.program_id);
                ix.accounts.iter().map(|m| c.slots[&m.pubkey].info.clone().unwrap()).collect()
            });
            QUIET.with(|q| q.set(true));
            let r = catch_unwind(AssertUnwindSafe(|| dispatch(&ix.program_id, &infos, &ix.data)));
            QUIET.with(|q| q.set(false));
            drop(infos);
            let rt = with_ctx(|c| c.runtime_error.take());
            result = match r {
                Err(_) => Err(TxError::Panic(i, PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())),
                Ok(Err(e)) => Err(match rt { Some(s) => TxError::Runtime(i, s), None => TxError::Program(i, e) }),
                Ok(Ok(())) => match rt {
                    Some(s) => Err(TxError::Runtime(i, s)),
                    None => with_ctx(|c| verify_all(c, &ix.program_id)).map_err(|e| TxError::Runtime(i, e)),
                },
            };
            if result.is_err() { break; }
        }

        let mut ctx = CTX.with(|c| c.borrow_mut().take()).unwrap();
        if result.is_ok() {
            for (k, s) in &ctx.slots {
                if s.sum.map(|c| c != checksum(s.data_slice())).unwrap_or(false) { result = Err(TxError::Runtime(ixs.len() - 1, format!("readonly data modified of {k}"))); }
                if !s.writable { continue; }
                let (pl, pd) = pre_rent[k];
                let len = s.data_slice().len();
                if rent_paying(*s.lamports, len) && !(rent_paying(pl, pd) && pd == len) {
                    result = Err(TxError::Runtime(ixs.len() - 1, format!("account {k} would become rent-paying ({} lamports, {len} bytes)", *s.lamports)));
                }
            }
        }

        // give back
        let ok = result.is_ok();
        for (k, s) in std::mem::take(&mut ctx.slots) {
            if k == sysvar::instructions::ID { continue; }
            let grown = s.data_slice().as_ptr() != s.data.as_ptr() || s.data_slice().len() != s.data.len();
            let grown_data = if grown { Some(s.data_slice().to_vec()) } else { None };
            let Slot { owner, lamports, data, writable, info, .. } = s;
            drop(info);
            let data = grown_data.map(Arc::new).unwrap_or(data);
            if !writable {
                // unchanged (verified)
                continue;
            }
            if ok {
                if *lamports == 0 { self.accounts.remove(&k); } else { self.accounts.insert(k, Account { lamports: *lamports, owner: *owner, data }); }
            }
        }
        if !ok {
            for (k, a) in undo {
                match a { Some(a) => { self.accounts.insert(k, a); } None => { self.accounts.remove(&k); } }
            }
        }
        for p in ctx.grown.drain(..) { unsafe { drop(Box::from_raw(p)); } }
        result
    }
}
