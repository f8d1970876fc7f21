//! Property P10: a deposit, its hashing and its insertion into the tree move exactly the prescribed funds between sender, fee payer,
//! pool, fee collector and cranking wardens, so that the pool always holds every deposited amount plus the lamports it still owes.
use elusiv::commitment::BaseCommitmentHashComputation;
use elusiv::processor::BaseCommitmentHashRequest;
use elusiv::state::commitment::{BaseCommitmentHashingAccount, CommitmentHashingAccount};
use elusiv::state::governor::{FeeCollectorAccount, GovernorAccount, PoolAccount};
use elusiv::state::storage::StorageAccount;
use elusiv::state::fee::FeeAccount;
use elusiv::token::{Lamports, TOKENS};
use elusiv::types::RawU256;
use elusiv_computation::PartialComputation;
use elusiv_types::SizedAccount;
use harness::poseidon::*;
use harness::prelude::*;
use harness::send::{balances, collector_acc, difference, pool_acc, token_price, Deltas};
use harness::world::*;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::sync::OnceLock;

const PEOPLE: [&str; 4] = ["alice", "bob", "warden-a", "warden-b"];
/// instructions of a batch computation (Poseidon hashes with 24 constraints each, see the batching rates)
const BATCH_TXS: [u64; 5] = [24, 24, 25, 29, 37];

fn template() -> &'static World {
    static T: OnceLock<World> = OnceLock::new();
    T.get_or_init(|| {
        let mut w = World::full(fee([5000, 50, 50, 1000, 1000, 300, 300]), &STORAGE_START_CHILDREN, &[], &[0]);
        for p in PEOPLE { w.fund(&user(p), 100_000 * SOL, 10_000_000_000_000); }
        w
    })
}

struct Job { payer: Pubkey, steps: usize, commitment: B32 }

struct Sim {
    w: World,
    rate: u32,
    jobs: BTreeMap<u32, Job>,
    next: u32,
    /// the pool's balance: deposits made and what was there before
    start: Vec<u64>,
    deposited: Vec<u128>,
    /// lamports deposited for computations - paid for computations
    paid_in: u128,
    paid_out: u128,
    accepted: usize,
    used: Vec<B32>,
}

fn name(k: &Pubkey) -> String {
    let mut all: Vec<(String, Pubkey)> = PEOPLE.iter().map(|p| (p.to_string(), user(p))).collect();
    all.push(("pool".into(), pda::<PoolAccount>()));
    all.push(("fee-collector".into(), pda::<FeeCollectorAccount>()));
    for (n, p) in all {
        if *k == p { return n }
        for t in 1..TOKENS.len() as u16 { if *k == ata(&p, t) { return format!("{n}'s token account") } }
    }
    for i in 0..40 { if *k == pda_at::<BaseCommitmentHashingAccount>(i).0 { return format!("hashing account {i}") } }
    k.to_string()
}

impl Sim {
    fn comp(&self) -> u64 { self.w.fee.lamports_per_tx.0 + self.w.fee.warden_hash_tx_reward.0 }
    fn base_fee(&self) -> u64 { BaseCommitmentHashComputation::TX_COUNT as u64 * self.comp() + self.w.fee.lamports_per_tx.0 }
    fn batch_fee(&self) -> u64 { (BATCH_TXS[self.rate as usize] * self.comp() + (1 << self.rate) - 1) >> self.rate }

    /// executes the transaction; a successful one has to move exactly `want`
    fn exec(&mut self, what: &str, ixs: &[Instruction], signers: &[Pubkey], want: &Deltas) -> Result<bool, Fail> {
        let before = balances(&self.w);
        let r = self.w.svm.tx(ixs, signers);
        let after = balances(&self.w);
        let none = Deltas::default();
        if let Some(d) = difference(&before, &after, if r.is_ok() { want } else { &none }, name) { fail("funds", format!("{what} ({}): {d}", if r.is_ok() { "ok" } else { "failed" }))?; }
        Ok(r.is_ok())
    }

    fn solvent(&mut self) -> Res {
        for t in 0..TOKENS.len() as u16 {
            let k = pool_acc(t);
            let now = if t == 0 { self.w.svm.lamports(&k) } else { self.w.svm.token_balance(&k) } as u128;
            let mut should = self.start[t as usize] as u128 + self.deposited[t as usize];
            if t == 0 {
                check!(self.paid_in >= self.paid_out, "insolvent", "{} lamports were paid for computations, only {} were deposited for them", self.paid_out, self.paid_in);
                should += self.paid_in - self.paid_out;
            }
            check!(now == should, "pool", "the pool holds {now} of token {t}, but {should} were deposited (and not yet spent)");
        }
        // the deposits for the outstanding work suffice to pay it
        let (active, left) = with_acc!(self.w, pda::<CommitmentHashingAccount>(), CommitmentHashingAccount, |a| (a.get_is_active(), BATCH_TXS[self.rate as usize].saturating_sub(a.get_instruction() as u64)));
        let mut owed = self.jobs.len() as u128 * (self.base_fee() + self.batch_fee()) as u128;
        owed += commitment_queue(&self.w).len() as u128 * self.batch_fee() as u128;
        if active { owed += left as u128 * self.comp() as u128; }
        check!(self.paid_in - self.paid_out >= owed, "insolvent", "outstanding computations cost {owed} lamports, {} are left for them", self.paid_in - self.paid_out);
        Ok(())
    }
}

fn store(s: &mut Src, m: &mut Sim) -> Res {
    let token = s.pick(&[0u16, 0, 1, 2, 11]);
    let t = &TOKENS[token as usize];
    let amount = match s.below(4) { 0 => t.min, 1 => t.max, _ => s.range(t.min, (t.min + 3 * SOL).min(t.max)) };
    let sender = user(s.pick(&PEOPLE));
    let payer = user(s.pick(&PEOPLE));
    let again = !m.used.is_empty() && s.chance(1, 8);
    let base = if again { s.pick(&m.used) } else { fr_to_le(&fr_from_le(&s.bytes::<32>())) };
    let again = m.used.contains(&base);
    let recent = with_acc!(m.w, pda::<StorageAccount>(), StorageAccount, |a| a.get_next_commitment_ptr());
    let mut request = BaseCommitmentHashRequest { base_commitment: RawU256::new(base), recent_commitment_index: recent, amount, token_id: token, commitment: RawU256::new([0; 32]), fee_version: 0, min_batching_rate: m.rate };
    let wrong = s.below(12);
    match wrong { 0 => request.min_batching_rate ^= 1, 1 => request.fee_version = 1, 2 => request.amount = t.max + 1, 3 => request.amount = t.min - 1, _ => {} }
    let i = if wrong == 4 && m.next > 0 { s.below(m.next as usize) as u32 } else { m.next };
    let taken = m.jobs.contains_key(&i);
    let comp = m.base_fee() + m.batch_fee();
    let price = token_price(&m.w, token);
    let conv = |l: u64| Lamports(l).into_token(&price, token).ok().map(|t| t.amount());
    let network = (m.w.fee.base_commitment_network_fee.0 as u128 * amount as u128 / 10_000) as u64;
    let rent = rent_exempt(BaseCommitmentHashingAccount::SIZE);
    let h = pda_at::<BaseCommitmentHashingAccount>(i).0;
    if s.chance(1, 10) { m.w.prefund(s, &h, BaseCommitmentHashingAccount::SIZE); }
    // (tokens can be paid from and to any token account of the sender and the fee payer)
    let own = |s: &mut Src, m: &mut Sim, who: &Pubkey, n: &str| {
        if token == 0 || !s.chance(1, 4) { return acc_of(who, token) }
        let k = user(&format!("second/{n}/{}/{token}", name(who)));
        if !m.w.svm.exists(&k) { m.w.svm.put_token_account(k, t.mint, *who, 1 << 56); }
        k
    };
    let (from, to) = (own(s, m, &sender, "sender"), own(s, m, &payer, "payer"));
    let mut d = Deltas::default();
    let amounts = (conv(comp), conv(m.w.fee.base_commitment_subvention.0));
    if let (Some(c), Some(sub)) = amounts {
        if c >= sub { d.mv(from, to, token, c - sub); }
        d.mv(payer, pda::<PoolAccount>(), 0, comp);
        d.mv(from, collector_acc(token), token, network);
        d.mv(from, pool_acc(token), token, amount);
        d.mv(payer, h, 0, rent.saturating_sub(m.w.svm.lamports(&h)));
        d.mv(collector_acc(token), to, token, sub);
    }
    let has = |k: &Pubkey| if token == 0 { m.w.svm.lamports(k) } else { m.w.svm.token_balance(k) };
    // (a surplus of either side is never in the way)
    let rich = has(&from) as u128 > amount as u128 * 3 + (1u128 << 50) || token == 0 && has(&sender) > 2000 * SOL;
    let rich = rich && m.w.svm.lamports(&payer) > 2000 * SOL && has(&collector_acc(token)) >= amounts.1.unwrap_or(0) + 2 * SOL;
    let mut ixn = m.w.store_ix(sender, payer, i, request, s.bytes::<17>());
    (ixn.accounts[1].pubkey, ixn.accounts[3].pubkey) = (from, to);
    let what = format!("deposit {i} of {amount} of token {token} by {} with fee payer {}", name(&sender), name(&payer));
    let ok = m.exec(&what, &[ixn], &[sender, payer], &d)?;
    s.log(|| format!("{what} (wrong: {wrong}, again: {again}) -> {ok}"));
    if ok {
        check!(wrong > 3 && !taken && !again, "accepted", "an invalid deposit is accepted: {what} (fault {wrong}, index taken: {taken}, repeated base commitment: {again})");
        let want = fr_to_mr(&hash2(fr_from_le(&base), fr_from_limbs(&[amount, token as u64 + ((recent as u64) << 16), 0, 0])));
        m.jobs.insert(i, Job { payer, steps: 0, commitment: want });
        m.next = m.next.max(i + 1);
        m.used.push(base);
        m.deposited[token as usize] += amount as u128;
        m.paid_in += comp as u128;
        s.label(if token == 0 { "lamports" } else { "token" });
        if sender == payer { s.label("sender pays the fees"); }
    } else if amounts.0.is_some() && amounts.1.is_some() && wrong > 3 && !taken && !again && rich {
        fail("rejected", format!("a valid deposit is rejected: {what}"))?;
    }
    Ok(())
}

fn compute_base(s: &mut Src, m: &mut Sim) -> Res {
    let k: Vec<u32> = m.jobs.keys().copied().collect();
    if k.is_empty() { return Ok(()) }
    let i = s.pick(&k);
    let ixn = m.w.compute_base_ix(i);
    if m.exec(&format!("hash {i}"), &[ixn], &[], &Deltas::default())? { m.jobs.get_mut(&i).unwrap().steps += 1; }
    Ok(())
}

fn finalize_base(s: &mut Src, m: &mut Sim, pick: Option<u32>) -> Res {
    let k: Vec<u32> = m.jobs.keys().copied().collect();
    if k.is_empty() { return Ok(()) }
    let i = pick.unwrap_or_else(|| s.pick(&k));
    let payer = m.jobs[&i].payer;
    let claim = if s.chance(1, 4) { user(s.pick(&PEOPLE)) } else { payer };
    let twice = s.chance(1, 6);
    let h = pda_at::<BaseCommitmentHashingAccount>(i).0;
    let mut d = Deltas::default();
    d.mv(pda::<PoolAccount>(), payer, 0, m.base_fee());
    d.mv(h, payer, 0, m.w.svm.lamports(&h));
    let mut ixs = vec![m.w.finalize_base_ix(claim, i, 0)];
    if twice { ixs.push(ixs[0].clone()); }
    let done = m.jobs[&i].steps >= BaseCommitmentHashComputation::IX_COUNT;
    let what = format!("finalize deposit {i} for {}{}", name(&claim), if twice { " twice" } else { "" });
    let ok = m.exec(&what, &ixs, &[], &d)?;
    s.log(|| format!("{what} -> {ok}"));
    check!(!ok || done && claim == payer, "finalized", "{what} succeeds (finished: {done}, fee payer {})", name(&payer));
    check!(ok || !(done && claim == payer) || twice || commitment_queue(&m.w).len() >= 239, "stuck", "{what} fails");
    if ok {
        let j = m.jobs.remove(&i).unwrap();
        check!(commitment_queue(&m.w).last().map(|c| c.0) == Some(j.commitment), "value", "deposit {i}: the queued commitment does not commit to the deposited amount and token");
        m.paid_out += m.base_fee() as u128;
        m.accepted += 1;
        check!(commitment_queue(&m.w).len() <= 239, "queue", "queue too long");
    }
    Ok(())
}

fn crank(s: &mut Src, m: &mut Sim, what: usize) -> Res {
    let caller = user(s.pick(&PEOPLE));
    let mut d = Deltas::default();
    let (active, ix0) = with_acc!(m.w, pda::<CommitmentHashingAccount>(), CommitmentHashingAccount, |a| (a.get_is_active(), a.get_instruction() as u64));
    let ixn = match what {
        0 => m.w.setup_hash_ix(s.bool()),
        1 => m.w.init_hash_ix(s.bool(), true),
        2 => { d.mv(pda::<PoolAccount>(), caller, 0, m.comp()); m.w.compute_hash_ix(caller, 0, s.below(2) as u32) }
        _ => m.w.finalize_hash_ix(),
    };
    let ok = m.exec(["setup", "init", "compute", "finalize"][what.min(3)], &[ixn], &[caller], &d)?;
    if what == 2 {
        let due = active && ix0 < BATCH_TXS[m.rate as usize];
        check!(ok == due, "compute", "hash computation (active: {active}, instruction {ix0}) -> {ok}");
        if ok { m.paid_out += m.comp() as u128; s.label("computation rewarded"); }
    }
    Ok(())
}

fn history(s: &mut Src) -> Res {
    let mut w = template().clone();
    // the fee and the batching rate of the governor
    let f = gen_fee(s);
    w.fee = clone_fee(&f);
    let rate = s.pick(&[0u32, 0, 1, 2, 3, 4]);
    let f2 = clone_fee(&f);
    with_acc!(w, pda::<GovernorAccount>(), GovernorAccount, |a| { a.set_commitment_batching_rate(&rate); a.set_program_fee(&f2); });
    with_acc!(w, pda_at::<FeeAccount>(0).0, FeeAccount, |a| a.set_program_fee(&f));
    for t in [0u16, 1, 2, 11] { if s.bool() { let p = s.range(1, 100_000_000_000u64) as i64; w.set_price(t, p, p as u64 / 1000, -(s.usize(3, 10) as i32)); } }
    // somebody cannot afford everything
    if s.chance(1, 3) {
        let token = s.pick(&[0u16, 1, 2, 11]);
        let who = if s.bool() { user(s.pick(&PEOPLE)) } else { pda::<FeeCollectorAccount>() };
        let left = s.pick(&[0u64, 1, 100_000, SOL]);
        if token == 0 { w.svm.accounts.get_mut(&who).unwrap().lamports = left + rent_exempt(w.svm.data(&who).len()); } else { w.svm.put_token_account(ata(&who, token), TOKENS[token as usize].mint, who, left); }
    }
    let start = (0..TOKENS.len() as u16).map(|t| if t == 0 { w.svm.lamports(&pool_acc(0)) } else { w.svm.token_balance(&pool_acc(t)) }).collect();
    let mut m = Sim { w, rate, jobs: BTreeMap::new(), next: 0, start, deposited: vec![0; TOKENS.len()], paid_in: 0, paid_out: 0, accepted: 0, used: vec![] };
    let n = s.usize(4, 24);
    for _ in 0..n {
        match s.weighted(&[4, 3, 2, 2, 3]) {
            0 => store(s, &mut m)?,
            1 => {
                // a whole deposit
                store(s, &mut m)?;
                let k: Vec<u32> = m.jobs.keys().copied().collect();
                if let Some(&i) = k.last() {
                    for _ in 0..BaseCommitmentHashComputation::IX_COUNT { let ixn = m.w.compute_base_ix(i); if m.exec("hash", &[ixn], &[], &Deltas::default())? { m.jobs.get_mut(&i).unwrap().steps += 1; } }
                    finalize_base(s, &mut m, Some(i))?;
                }
            }
            2 => compute_base(s, &mut m)?,
            3 => finalize_base(s, &mut m, None)?,
            _ => {
                if s.bool() { let k = s.below(4); crank(s, &mut m, k)?; }
                else {
                    crank(s, &mut m, 0)?;
                    crank(s, &mut m, 1)?;
                    let k = if s.chance(1, 3) { s.below(30) } else { 38 };
                    for _ in 0..k { crank(s, &mut m, 2)?; if !with_acc!(m.w, pda::<CommitmentHashingAccount>(), CommitmentHashingAccount, |a| a.get_is_active() && (a.get_instruction() as u64) < BATCH_TXS[rate as usize]) { break; } }
                    for _ in 0..=rate { crank(s, &mut m, 3)?; }
                }
            }
        }
        m.solvent()?;
    }
    s.label(&format!("rate {rate}"));
    if m.accepted > 0 { let h = s.choices_hash(); s.nontrivial(h); }
    Ok(())
}

fn main() {
    kat();
    Suite::new("P10", "histories in which at least one deposit was hashed and its fee payer compensated")
        .assume("prices, fees and the batching rate are constant during a history")
        .test("deposits", 3000, 100000, history)
        .main()
}
