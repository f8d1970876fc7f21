//! Property P18: every account of the program is created at most once, at its own address, with its documented initial content, for the
//! rent only, by anybody and whatever was sent to its address before; a repeated set-up has no effect.
use elusiv::instruction::ElusivInstruction;
use elusiv::state::commitment::*;
use elusiv::state::fee::{FeeAccount, ProgramFee};
use elusiv::state::governor::{FeeCollectorAccount, GovernorAccount, PoolAccount};
use elusiv::state::metadata::{MetadataAccount, MetadataQueueAccount};
use elusiv::state::nullifier::NullifierAccount;
use elusiv::state::storage::StorageAccount;
use elusiv::state::vkey::VKeyAccount;
use elusiv_types::accounts::*;
use borsh::BorshSerialize;
use harness::prelude::*;
use harness::send::{balances, difference, Deltas};
use harness::world::*;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};

const PEOPLE: [&str; 3] = ["alice", "bob", "poor"];

/// what exists: address -> (size, expected content)
struct Sim { w: World, made: BTreeMap<Pubkey, Vec<u8>>, fee: Option<ProgramFee>, next: u32 }

fn known() -> Vec<(&'static str, Pubkey, u8, usize)> {
    let mut v = vec![];
    macro_rules! one { ($($t:ident),*) => { $({ let (k, b) = <$t as PDAAccount>::find(None); v.push((stringify!($t), k, b, $t::SIZE)); })* } }
    one!(PoolAccount, FeeCollectorAccount, CommitmentHashingAccount, CommitmentQueueAccount, StorageAccount, BaseCommitmentBufferAccount, CommitmentBufferAccount, MetadataQueueAccount, MetadataAccount, GovernorAccount);
    for i in 0..4 { let (k, b) = pda_at::<NullifierAccount>(i); v.push(("NullifierAccount", k, b, NullifierAccount::SIZE)); }
    for i in 0..3 { let (k, b) = pda_at::<FeeAccount>(i); v.push(("FeeAccount", k, b, FeeAccount::SIZE)); }
    for i in 0..2 { let (k, b) = pda_at::<VKeyAccount>(i); v.push(("VKeyAccount", k, b, VKeyAccount::SIZE)); }
    v
}
fn fresh(k: &Pubkey) -> Vec<u8> { let (_, _, b, n) = known().into_iter().find(|x| x.1 == *k).unwrap(); let mut d = vec![0u8; n]; d[0] = b; d }

/// executes a set-up instruction that creates `creates` (with these contents) if it is permitted
fn attempt(s: &mut Src, m: &mut Sim, what: &str, mut i: Instruction, payer: Pubkey, allowed: bool, creates: Vec<(Pubkey, Vec<u8>)>) -> Result<bool, Fail> {
    let mut allowed = allowed;
    let mut signers = vec![payer];
    if s.chance(1, 12) { for a in i.accounts.iter_mut() { if a.pubkey == payer { a.is_signer = false; } } signers.clear(); signers.push(user("stranger")); allowed = false; }
    if s.chance(1, 10) {
        // another account in the place of one
        let at = s.below(i.accounts.len());
        let k = match s.below(3) { 0 => s.pick(&known()).1, 1 => user("foreign"), _ => user("alice") };
        if i.accounts[at].pubkey != k {
            // (a payer is arbitrary, and the system program is only read)
            if i.accounts[at].is_signer { return Ok(false) }
            i.accounts[at].pubkey = k;
            allowed = false;
        }
    }
    // (the payer is also one of the accounts to create: impossible)
    let cost = |k: &Pubkey, d: &Vec<u8>| rent_exempt(d.len()).saturating_sub(m.w.svm.lamports(k));
    let total: u64 = creates.iter().map(|(k, d)| cost(k, d)).sum();
    // the payer has to stay rent exempt or to be emptied
    let has = m.w.svm.lamports(&payer);
    let affordable = has >= total && (has == total || has - total >= rent_exempt(0));
    let free = creates.iter().all(|(k, _)| !m.made.contains_key(k));
    let should = allowed && affordable && free;
    let mut d = Deltas::default();
    if should { for (k, c) in &creates { d.mv(payer, *k, 0, cost(k, c)); } }
    let before = balances(&m.w);
    let twice = s.chance(1, 20);
    let ixs = if twice { vec![i.clone(), i] } else { vec![i] };
    let ok = m.w.svm.tx(&ixs, &signers).is_ok();
    s.log(|| format!("{what}{} -> {ok}", if twice { " twice" } else { "" }));
    let should = should && !twice;
    check!(ok == should, if ok { "repeated" } else { "refused" }, "{what}{}: success = {ok} (permitted: {allowed}, affordable: {affordable}, not yet existing: {free})", if twice { " twice" } else { "" });
    let none = Deltas::default();
    if let Some(d) = difference(&before, &balances(&m.w), if ok { &d } else { &none }, |k| k.to_string()) { fail("funds", format!("{what}: {d}"))?; }
    if ok { for (k, c) in creates { m.made.insert(k, c); } s.label(what.split(' ').next().unwrap()); }
    Ok(ok)
}

fn put(d: &mut Vec<u8>, ty: impl Fn(&mut Vec<u8>)) { ty(d) }

fn step(s: &mut Src, m: &mut Sim) -> Res {
    let payer = user(s.pick(&PEOPLE));
    match s.below(8) {
        0 => {
            let c = ["PoolAccount", "FeeCollectorAccount", "CommitmentHashingAccount", "CommitmentQueueAccount", "StorageAccount", "BaseCommitmentBufferAccount"];
            let creates = known().iter().filter(|k| c.contains(&k.0)).map(|k| (k.1, fresh(&k.1))).collect();
            attempt(s, m, "single-instance accounts", open_single_instance(payer), payer, true, creates)?;
        }
        1 => {
            let c = ["CommitmentBufferAccount", "MetadataQueueAccount", "MetadataAccount"];
            let mut creates: Vec<(Pubkey, Vec<u8>)> = known().iter().filter(|k| c.contains(&k.0)).map(|k| (k.1, fresh(&k.1))).collect();
            let there = m.made.contains_key(&pda::<StorageAccount>());
            let mut allowed = there;
            if there {
                let ptr = with_acc!(m.w, pda::<StorageAccount>(), StorageAccount, |a| a.get_next_commitment_ptr());
                for (k, d) in creates.iter_mut() { if *k == pda::<MetadataAccount>() { put(d, |d| { let mut a = <MetadataAccount as ProgramAccount>::new(d).unwrap(); a.set_next_metadata_ptr(&ptr); }); } }
                allowed &= !with_acc!(m.w, pda::<CommitmentHashingAccount>(), CommitmentHashingAccount, |a| a.get_is_active()) && commitment_queue(&m.w).is_empty();
            }
            attempt(s, m, "v1 accounts", create_new_accounts_v1(payer), payer, allowed, creates)?;
        }
        2 | 3 => {
            let t = s.below(4) as u32;
            let k = pda_at::<NullifierAccount>(t).0;
            attempt(s, m, &format!("nullifier account {t}"), open_nullifier(payer, t), payer, true, vec![(k, fresh(&k))])?;
        }
        4 => {
            let k = pda::<GovernorAccount>();
            let mut d = fresh(&k);
            put(&mut d, |d| { let mut a = <GovernorAccount as ProgramAccount>::new(d).unwrap(); a.set_commitment_batching_rate(&0); });
            attempt(s, m, "governor", setup_governor(payer), payer, true, vec![(k, d)])?;
        }
        5 => {
            let v = s.pick(&[0u32, 0, 0, 1, 2]);
            let f = if s.chance(1, 4) { fee([5000, 100, 100, u64::MAX >> s.below(60), 100, 300, 300]) } else { gen_fee(s) };
            let k = pda_at::<FeeAccount>(v).0;
            let mut d = fresh(&k);
            let f2 = clone_fee(&f);
            put(&mut d, |d| { let mut a = <FeeAccount as ProgramAccount>::new(d).unwrap(); a.set_program_fee(&f2); });
            let allowed = v == 0 && f.is_valid() && m.made.contains_key(&pda::<GovernorAccount>());
            if attempt(s, m, &format!("fee {v}"), init_fee(payer, v, clone_fee(&f)), payer, allowed, vec![(k, d)])? {
                // the governor charges this fee
                let mut g = m.made[&pda::<GovernorAccount>()].clone();
                { let mut a = <GovernorAccount as ProgramAccount>::new(&mut g).unwrap(); a.set_program_fee(&f); }
                m.made.insert(pda::<GovernorAccount>(), g);
                m.fee = Some(f);
            }
        }
        6 => {
            let k = match s.below(3) { 0 => s.pick(&known()).1, _ => known()[s.below(11)].1 };
            let n = fresh(&k).len();
            m.w.prefund(s, &k, n);
        }
        _ => {
            // the program is in use
            let Some(k) = m.made.keys().nth(s.below(m.made.len().max(1))).copied() else { return Ok(()) };
            match s.below(3) {
                0 if k == pda::<StorageAccount>() => with_acc!(m.w, k, StorageAccount, |a| a.set_next_commitment_ptr(&(s.below(1 << 20) as u32))),
                1 if m.made.contains_key(&pda::<CommitmentHashingAccount>()) => with_acc!(m.w, pda::<CommitmentHashingAccount>(), CommitmentHashingAccount, |a| a.set_is_active(&s.bool())),
                _ if m.made.contains_key(&pda::<MetadataQueueAccount>()) => m.w.enqueue([9; 32], [1; 17], 0, 0),
                _ => m.w.svm.airdrop(&k, 1),
            }
            let mine: BTreeSet<Pubkey> = m.made.keys().copied().collect();
            for k in mine { let d = m.w.svm.data(&k).to_vec(); m.made.insert(k, d); }
        }
    }
    for (n, k, _, _) in known() {
        match m.made.get(&k) {
            Some(d) => {
                check!(m.w.svm.owner(&k) == elusiv::id(), "owner", "{n} is not owned by the program");
                check!(m.w.svm.data(&k) == &d[..], "content", "{n}: unexpected content, first difference at byte {:?} of {} ({} bytes expected)", m.w.svm.data(&k).iter().zip(d).position(|(a, b)| a != b), m.w.svm.data(&k).len(), d.len());
                check!(m.w.svm.lamports(&k) >= rent_exempt(d.len()), "rent", "{n} is not rent exempt");
            }
            None => check!(m.w.svm.owner(&k) != elusiv::id(), "appeared", "{n} exists without its set-up"),
        }
    }
    if let (Some(f), Some(_)) = (&m.fee, m.made.get(&pda::<GovernorAccount>())) {
        let g = with_acc!(m.w, pda::<GovernorAccount>(), GovernorAccount, |a| (a.get_program_fee().try_to_vec().unwrap(), a.get_fee_version()));
        check!(g == (f.try_to_vec().unwrap(), 0), "fee", "the governor's fee is not the one of version 0");
    }
    Ok(())
}

fn history(s: &mut Src) -> Res {
    let mut svm = svm::Svm::new(&[(elusiv::id(), elusiv::process_instruction)]);
    for p in &PEOPLE[..2] { svm.airdrop(&user(p), 1000 * SOL); }
    svm.airdrop(&user("poor"), s.pick(&[rent_exempt(0), SOL / 100, SOL / 10, SOL]));
    svm.airdrop(&user("stranger"), SOL);
    let w = World { svm, payer: user("alice"), storage_children: vec![], nullifier_children: vec![], metadata_children: vec![], fee: fee([5000, 0, 0, 0, 0, 0, 0]) };
    let mut m = Sim { w, made: BTreeMap::new(), fee: None, next: 0 };
    for _ in 0..s.usize(3, 40) { m.next += 1; step(s, &mut m)?; }
    if m.made.len() >= 9 { let h = s.choices_hash(); s.nontrivial(h); }
    Ok(())
}

/// the instructions without implementation do not do anything
fn unavailable(s: &mut Src) -> Res {
    static T: std::sync::OnceLock<World> = std::sync::OnceLock::new();
    let mut w = T.get_or_init(|| { let mut w = World::full(fee([5000, 0, 0, 0, 0, 0, 0]), &STORAGE_START_CHILDREN, &[0], &[0]); w.fund(&user("alice"), SOL, 0); w }).clone();
    let who = user("alice");
    let n = s.below(4);
    let accs = known();
    let target = match s.below(3) { 0 => s.pick(&accs).1, 1 => child_key("storage", 0, 0), _ => pda::<PoolAccount>() };
    let i = match n {
        0 => ix(ElusivInstruction::UpgradeGovernorState { fee_version: s.below(3) as u32, batching_rate: s.below(6) as u32 }, vec![rs(who), harness::world::w(pda::<GovernorAccount>()), r(pda::<CommitmentQueueAccount>())]),
        1 => ix(ElusivInstruction::CloseProgramAccount, vec![rs(who), harness::world::w(who), harness::world::w(target), r(solana_program::system_program::ID)]),
        2 => ix(ElusivInstruction::CloseProgramAccount, vec![r(elusiv::id()), harness::world::w(who), harness::world::w(target), r(solana_program::system_program::ID)]),
        _ => ix(ElusivInstruction::Nop, vec![harness::world::w(target)]),
    };
    let before = w.svm.accounts.clone();
    let ok = w.svm.tx(&[i], &[who]).is_ok();
    s.log(|| format!("instruction {n} on {target} -> {ok}"));
    check!(before.len() == w.svm.accounts.len() && before.iter().all(|(k, a)| { let b = w.svm.get(k); a.lamports == b.lamports && a.owner == b.owner && a.data == b.data }), "effect", "an unavailable instruction ({n}) changed {target}");
    s.nontrivial(s_hash(n, &target));
    Ok(())
}
fn s_hash(n: usize, k: &Pubkey) -> u64 { fnv(&[&[n as u8], &k.to_bytes()[..]].concat()) }

fn main() {
    Suite::new("P18", "histories in which at least nine accounts were set up; unavailable instructions with distinct targets")
        .test("setup", 6000, 300_000, history)
        .test("unavailable", 300, 3000, unavailable)
        .main()
}
