//! Property P29: whatever is deposited, hashed, spent and claimed in whatever order, the pool holds at any time all unspent
//! commitments and all lamports it still owes for their computations, no commitment is spent twice, and every inserted unspent
//! commitment can be withdrawn. The harness plays the circuit: a proof is valid iff the prover knows the spent commitments.
use elusiv::commitment::BaseCommitmentHashComputation;
use elusiv::processor::BaseCommitmentHashRequest;
use elusiv::state::commitment::{CommitmentHashingAccount};
use elusiv::state::governor::{FeeCollectorAccount, GovernorAccount, PoolAccount};
use elusiv::state::proof::{VerificationAccount, VerificationState};
use elusiv::token::TOKENS;
use elusiv::types::RawU256;
use elusiv_computation::PartialComputation;
use elusiv_types::ElusivOption;
use harness::poseidon::*;
use harness::prelude::*;
use harness::send::*;
use harness::settle::{zero_g1, zero_g2};
use harness::tree::*;
use harness::world::*;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::OnceLock;

const WARDENS: [&str; 3] = ["warden-a", "warden-b", "warden-c"];
const COINS: [u16; 4] = [0, 1, 2, 11];
const BATCH_TXS: [u64; 5] = [24, 24, 25, 29, 37];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Place { Hashing(u32), Queued, Inserted(usize) }

struct Note { token: u16, amount: u64, nullifier: B32, commitment: B32, place: Place, spent: bool }

struct Pending { v: Send, fees: Fees, notes: Vec<usize>, honest: bool, change: u64, proven: bool }

struct Sim {
    w: World,
    rate: u32,
    notes: Vec<Note>,
    queue: VecDeque<usize>,
    tree: Tree,
    pending: Vec<Pending>,
    steps: BTreeMap<u32, usize>,
    payers: BTreeMap<u32, Pubkey>,
    next: u32,
    start: BTreeMap<u16, u64>,
    spends: usize,
    next_index: u8,
    used: BTreeSet<B32>,
    coins: Vec<u16>,
}

fn template() -> &'static World {
    static T: OnceLock<World> = OnceLock::new();
    T.get_or_init(|| {
        let mut w = World::full(fee([5000, 50, 50, 1000, 1000, 300, 300]), &STORAGE_START_CHILDREN, &[0], &[0]);
        for p in WARDENS { w.fund(&user(p), 1_000_000 * SOL, 1_000_000_000_000_000); }
        w.fund(&user("alice"), 1_000_000 * SOL, 1_000_000_000_000_000);
        w.put_vkey(0, 14, None);
        // nobody else's funds are in the pool
        let pool = pda::<PoolAccount>();
        let rent = rent_exempt(w.svm.data(&pool).len());
        w.svm.accounts.get_mut(&pool).unwrap().lamports = rent;
        for t in 1..TOKENS.len() { w.svm.put_token_account(ata(&pool, t as u16), TOKENS[t].mint, pool, 0); }
        w
    })
}

fn pool_balance(w: &World, t: u16) -> u64 { if t == 0 { w.svm.lamports(&pool_acc(0)) } else { w.svm.token_balance(&pool_acc(t)) } }

impl Sim {
    fn comp(&self) -> u64 { self.w.fee.lamports_per_tx.0 + self.w.fee.warden_hash_tx_reward.0 }
    fn base_fee(&self) -> u64 { BaseCommitmentHashComputation::TX_COUNT as u64 * self.comp() + self.w.fee.lamports_per_tx.0 }
    fn batch_fee(&self) -> u64 { (BATCH_TXS[self.rate as usize] * self.comp() + (1 << self.rate) - 1) >> self.rate }

    /// everything the pool owes
    fn covered(&mut self, what: &str) -> Res {
        for t in COINS {
            let mut owed = self.notes.iter().filter(|n| n.token == t && !n.spent).map(|n| n.amount as u128).sum::<u128>();
            let unspent = owed;
            if t == 0 {
                let (active, left) = with_acc!(self.w, pda::<CommitmentHashingAccount>(), CommitmentHashingAccount, |a| (a.get_is_active(), BATCH_TXS[self.rate as usize].saturating_sub(a.get_instruction() as u64)));
                if active { owed += left as u128 * self.comp() as u128; }
                for n in &self.notes { owed += match n.place { Place::Hashing(_) => self.base_fee() + self.batch_fee(), Place::Queued if !(active && self.queue.iter().take(1 << self.rate).any(|&i| self.notes[i].nullifier == n.nullifier)) => self.batch_fee(), _ => 0 } as u128; }
                for p in &self.pending { owed += (p.fees.hash_lamports + p.fees.ata_rent) as u128; }
            }
            let has = pool_balance(&self.w, t) as u128 - self.start[&t] as u128;
            check!(has >= owed, "insolvent", "after {what}: the pool holds {has} of token {t}, but owes {owed} ({unspent} of it are unspent commitments)");
        }
        Ok(())
    }

    fn tx(&mut self, what: &str, ixs: &[Instruction], signers: &[Pubkey]) -> Result<bool, Fail> {
        let before: Vec<u64> = COINS.iter().map(|t| pool_balance(&self.w, *t)).collect();
        let ok = self.w.svm.tx(ixs, signers).is_ok();
        if !ok { check!(before == COINS.iter().map(|t| pool_balance(&self.w, *t)).collect::<Vec<_>>(), "failed-tx", "harness: a failed transaction changed balances"); }
        let _ = what;
        Ok(ok)
    }

    fn unspent(&self, t: u16) -> Vec<usize> { (0..self.notes.len()).filter(|&i| { let n = &self.notes[i]; n.token == t && !n.spent && matches!(n.place, Place::Inserted(_)) }).collect() }
}

/// a field element that was not used before
fn fresh(s: &mut Src, m: &mut Sim) -> B32 {
    let mut f = gen_field(s);
    while !m.used.insert(f) { f = fr_to_le(&(fr_from_le(&f) + fr_u64(1))); }
    f
}

fn deposit(s: &mut Src, m: &mut Sim) -> Res {
    let token = s.pick(&m.coins);
    let t = &TOKENS[token as usize];
    let amount = match s.below(5) { 0 => t.min, 1 => s.range(t.min, t.min * 10), _ => s.range(t.min, (t.min + 3 * SOL).min(t.max)) };
    let base = fresh(s, m);
    let nullifier = fresh(s, m);
    let recent = m.tree.next as u32;
    let payer = user(s.pick(&WARDENS));
    let i = m.next;
    let request = BaseCommitmentHashRequest { base_commitment: RawU256::new(base), recent_commitment_index: recent, amount, token_id: token, commitment: RawU256::new([0; 32]), fee_version: 0, min_batching_rate: m.rate };
    let ixn = m.w.store_ix(user("alice"), payer, i, request, s.bytes::<17>());
    let ok = m.tx("deposit", &[ixn], &[user("alice"), payer])?;
    s.log(|| format!("deposit {i} of {amount} of token {token} -> {ok}"));
    if !ok { s.label("deposit refused"); return Ok(()) }
    let c = fr_to_mr(&hash2(fr_from_le(&base), fr_from_limbs(&[amount, token as u64 + ((recent as u64) << 16), 0, 0])));
    m.notes.push(Note { token, amount, nullifier, commitment: c, place: Place::Hashing(i), spent: false });
    m.payers.insert(i, payer);
    m.steps.insert(i, 0);
    m.next += 1;
    m.covered("a deposit")
}

fn hash_base(s: &mut Src, m: &mut Sim, i: u32, all: bool) -> Res {
    let k = if all { BaseCommitmentHashComputation::IX_COUNT - m.steps[&i] } else { s.usize(0, 2) };
    for _ in 0..k { let c = m.w.compute_base_ix(i); if m.tx("base hash", &[c], &[])? { *m.steps.get_mut(&i).unwrap() += 1; } }
    let payer = m.payers[&i];
    let f = m.w.finalize_base_ix(payer, i, 0);
    let ok = m.tx("base finalize", &[f], &[])?;
    check!(ok == (m.steps[&i] >= BaseCommitmentHashComputation::IX_COUNT), "base-hash", "finalization of deposit {i} after {} steps -> {ok}", m.steps[&i]);
    if ok {
        let n = m.notes.iter().position(|n| n.place == Place::Hashing(i)).unwrap();
        m.notes[n].place = Place::Queued;
        m.queue.push_back(n);
        m.steps.remove(&i);
        m.covered("a base commitment hash")?;
    }
    Ok(())
}

/// a (part of a) run of the crank
fn crank(s: &mut Src, m: &mut Sim, all: bool) -> Res {
    let caller = user(s.pick(&WARDENS));
    let state = |m: &mut Sim| with_acc!(m.w, pda::<CommitmentHashingAccount>(), CommitmentHashingAccount, |a| (a.get_is_active(), a.get_instruction() as u64, a.get_setup()));
    let mut budget = if all { 1000 } else { s.usize(1, 30) };
    loop {
        let (active, ix, setup) = state(m);
        if budget == 0 { return Ok(()) }
        budget -= 1;
        if !active {
            if m.queue.len() < 1 << m.rate { return Ok(()) }
            if !setup {
                let i = m.w.setup_hash_ix(s.bool());
                check!(m.tx("setup", &[i], &[])?, "crank", "the set-up of a batch fails");
            }
            let i = m.w.init_hash_ix(s.bool(), true);
            check!(m.tx("init", &[i], &[])?, "crank", "the initialisation of a batch fails with {} commitments queued", m.queue.len());
        } else if ix < BATCH_TXS[m.rate as usize] {
            let i = m.w.compute_hash_ix(caller, 0, 0);
            let ok = m.tx("compute", &[i], &[caller])?;
            check!(ok, "crank", "a computation (instruction {ix}) of a batch fails");
        } else {
            let i = m.w.finalize_hash_ix();
            check!(m.tx("finalize", &[i], &[])?, "crank", "the finalization of a batch fails");
            if !state(m).0 {
                let batch: Vec<usize> = m.queue.drain(..1 << m.rate).collect();
                let leaves: Vec<_> = batch.iter().map(|&n| mr_to_fr(&m.notes[n].commitment)).collect();
                for (k, &n) in batch.iter().enumerate() { m.notes[n].place = Place::Inserted(m.tree.next + k); }
                m.tree.insert(&leaves);
                s.label("batch inserted");
                m.covered("a batch")?;
                return Ok(())
            }
        }
        m.covered("a step of the crank")?;
    }
}

fn exact_fee(w: &World, v: &mut Send, rate: u32, gross: Option<u64>, extra: u64) -> Option<Fees> {
    for _ in 0..30 {
        let f = fees(w, v, rate)?;
        let want = f.min_fee() + extra;
        let amount = match gross { Some(g) => g.checked_sub(want)?, None => v.amount };
        if v.fee == want && v.amount == amount { return Some(f) }
        v.fee = want;
        v.amount = amount;
    }
    // (the fee oscillates: somewhat more than necessary)
    if let Some(g) = gross {
        for more in 1..40u64 {
            let want = v.fee + more * 100;
            let amount = g.checked_sub(want)?;
            let old = (v.fee, v.amount);
            (v.fee, v.amount) = (want, amount);
            let f = fees(w, v, rate)?;
            if f.min_fee() <= want { return Some(f) }
            (v.fee, v.amount) = old;
        }
    }
    None
}

/// a request for a send of some notes; `None` if the notes do not suffice
fn start_send(s: &mut Src, m: &mut Sim, notes: Vec<usize>, all: bool, trick: usize) -> Result<bool, Fail> {
    let token = m.notes[notes[0]].token;
    let t = &TOKENS[token as usize];
    let sum: u64 = notes.iter().map(|&i| m.notes[i].amount).sum();
    let ofp = user(if all { WARDENS[0] } else { s.pick(&WARDENS) });
    // tokens which exist, in a tree, by the prover's knowledge
    let mut honest = notes.iter().all(|&i| m.notes[i].token == token && matches!(m.notes[i].place, Place::Inserted(_)));
    let mut nullifiers: Vec<B32> = notes.iter().map(|&i| m.notes[i].nullifier).collect();
    let mut repeated = notes.iter().enumerate().any(|(k, i)| notes[..k].contains(i));
    match trick {
        1 => { let k = s.below(nullifiers.len()); nullifiers[k] = fresh(s, m); honest = false; s.label("trick: unknown nullifier"); }
        2 if nullifiers.len() < 4 => { let k = nullifiers[0]; nullifiers.push(k); repeated = true; s.label("trick: same nullifier twice"); }
        3 => {
            // another representation of the same field element
            let p = fr_to_le(&-fr_u64(1));
            let mut carry = 1u16;
            let n = nullifiers.len() - 1;
            for b in 0..32 { let x = nullifiers[n][b] as u16 + p[b] as u16 + carry; nullifiers[n][b] = x as u8; carry = x >> 8; }
            if carry > 0 { return Ok(false) }
            repeated = true;
            s.label("trick: non-canonical nullifier");
        }
        _ => {}
    }
    let mut more = 0;
    if trick == 4 { more = s.range(1, SOL); honest = false; s.label("trick: more than the sum"); }
    if m.tree.roots.is_empty() { return Ok(false) }
    // any root that contains the notes
    let first = notes.iter().map(|&i| match m.notes[i].place { Place::Inserted(k) => k, _ => 0 }).max().unwrap();
    let per = 1usize << m.rate;
    let (lo, hi) = (first / per, m.tree.roots.len() - 1);
    let at = if trick == 5 && lo > 0 { honest = false; s.label("trick: root before the insertion"); s.usize(0, lo - 1) } else { s.usize(lo.min(hi), hi) };
    if hi - at >= 100 { return Ok(false) }
    let root = fr_to_le(&mr_to_fr(&m.tree.roots[at]));
    let kind = if token == 0 { Recipient::Wallet } else { s.pick(&[Recipient::Ata, Recipient::TokenAccount, Recipient::Invalid]) };
    let wallet = user(&format!("recipient/{}", s.below(3)));
    let recipient = match kind {
        Recipient::TokenAccount => { let k = user(&format!("token-account/{token}")); if !m.w.svm.exists(&k) { m.w.svm.put_token_account(k, t.mint, wallet, 0); } k }
        Recipient::Invalid => { let k = user("invalid"); if !m.w.svm.exists(&k) { m.w.svm.put_exempt(k, spl_token::ID, vec![0; 165]); } k }
        _ => wallet,
    };
    let collector = user("optional");
    let opt = acc_of(&collector, token);
    if !m.w.svm.exists(&opt) { if token == 0 { m.w.svm.airdrop(&opt, SOL); } else { m.w.svm.put_token_account(opt, t.mint, collector, 0); } }
    let index = m.next_index;
    let mut v = Send {
        token, amount: 0, fee: 0, optional: (opt, 0), metadata: s.bytes::<17>(),
        inputs: nullifiers.iter().enumerate().map(|(k, n)| (if k == 0 { Some(root) } else { None }, *n)).collect(),
        output: fresh(s, m), recent: m.tree.next as u32, kind, recipient,
        solana_pay: false, memo: None, identifier: user("identifier"), reference: None,
        iv: s.bytes::<32>(), owner: s.bytes::<32>(), fee_version: 0,
        ofp, ofp_account: acc_of(&ofp, token), index, skip_pda: false, trees: [0, 1],
    };
    let extra = if all { 0 } else { s.pick(&[0u64, 0, 1, 5000]) };
    let whole = all || s.chance(1, 3);
    if !whole { let x = s.range(0, sum); v.amount = if s.chance(1, 6) { 0 } else { x }; if v.amount > 0 && s.bool() { v.optional.1 = if v.token != 0 && v.kind != Recipient::Ata && s.chance(1, 4) { v.amount } else { s.range(0, v.amount / 3) }; } }
    let Some(f) = exact_fee(&m.w, &mut v, m.rate, if whole { Some(sum) } else { None }, extra) else { return Ok(false) };
    if whole && v.amount > 0 && !all && s.bool() { v.optional.1 = 0; }
    v.amount += more;
    if v.amount as u128 + v.fee as u128 > sum as u128 && more == 0 { return Ok(false) }
    let Some(f) = (if more > 0 { exact_fee(&m.w, &mut v, m.rate, None, extra) } else { Some(f) }) else { return Ok(false) };
    let total = v.amount + v.fee;
    if total <= sum && more > 0 { return Ok(false) }
    v.skip_pda = m.w.opened(&v.duplicate());
    let receivable = !(v.token == 0 && v.amount > 0 && v.amount - v.optional.1 < rent_exempt(0)) && !(v.kind == Recipient::Ata && v.amount < f.ata_rent_token + v.optional.1);
    let spent = notes.iter().any(|&i| m.notes[i].spent) && trick != 1;
    let ixs = v.init_ixs(&m.w);
    let ok = m.tx("request", &ixs, &[ofp])?;
    s.log(|| format!("send #{index} of {} (+ {} fee) of {sum} of token {token}, {} inputs, trick {trick}, honest {honest}, spent {spent} -> {ok}", v.amount, v.fee, v.inputs.len()));
    if spent { s.label("request with a spent commitment"); }
    check!(!(ok && spent), "double-spend", "a send with a spent nullifier is accepted");
    check!(!(ok && repeated), "repeated", "a send with a repeated (or a non-canonical) nullifier is accepted");
    let limits = f.hash_token <= t.max && f.verification <= t.max && f.min_fee() <= t.max && f.network <= t.max && f.ata_rent_token <= t.max;
    if all && honest && !spent && receivable && limits && (t.min..=t.max).contains(&total) && !ok { fail("stuck", format!("a withdrawal of {sum} of token {token} is refused"))?; }
    if ok {
        m.next_index += 1;
        m.pending.push(Pending { change: sum.saturating_sub(total), v, fees: f, notes, honest, proven: false });
        m.covered("a request")?;
    }
    Ok(ok)
}

fn prove(_s: &mut Src, m: &mut Sim, p: usize) -> Res {
    if m.pending[p].proven { return Ok(()) }
    let v = m.pending[p].v.clone();
    let i = m.w.init_proof_ix(v.ofp, v.index, elusiv::types::Proof { a: zero_g1(), b: zero_g2(), c: zero_g1() });
    check!(m.tx("proof", &[i], &[v.ofp])?, "proof", "the proof of an accepted request cannot be set");
    let honest = m.pending[p].honest;
    with_acc!(m.w, v.account(), VerificationAccount, |a| a.set_is_verified(&ElusivOption::Some(honest)));
    m.pending[p].proven = true;
    Ok(())
}

fn settle(s: &mut Src, m: &mut Sim, p: usize, plain: bool) -> Res {
    if !m.pending[p].proven { return Ok(()) }
    let (v, f, honest) = { let x = &m.pending[p]; (x.v.clone(), x.fees.clone(), x.honest) };
    let mut ixs = v.finalize_ixs(&mut m.w, &f, honest);
    let dup = m.w.opened(&v.duplicate());
    let twice = !plain && s.chance(1, 10);
    if twice { let mut a = ixs.clone(); ixs.append(&mut a); }
    let ok = m.tx("settlement", &ixs, &[v.ofp])?;
    s.log(|| format!("settlement of send #{} -> {ok}", v.index));
    let spent = m.pending[p].notes.iter().any(|&i| m.notes[i].spent);
    if honest && spent { s.label("settlement with a commitment spent meanwhile"); }
    check!(!(ok && twice), "double-settlement", "a send was settled twice");
    if ok {
        let x = m.pending.remove(p);
        if honest {
            check!(!spent, "double-spend", "a commitment was spent twice");
            for &i in &x.notes { m.notes[i].spent = true; }
            let nullifier = fresh(s, m);
            m.notes.push(Note { token: v.token, amount: x.change, nullifier, commitment: fr_to_mr(&fr_from_le(&v.output)), place: Place::Queued, spent: false });
            let n = m.notes.len() - 1;
            m.queue.push_back(n);
            m.spends += 1;
            s.label(if x.change > 0 { "spent with change" } else { "spent" });
        } else { s.label("invalid proof forfeited"); }
        m.covered("a settlement")?;
    } else if !twice && dup && (!honest || !spent) {
        let st = state(&mut m.w, &v);
        check!(!matches!(st, Some((VerificationState::ProofSetup, Some(_)))), "stuck", "an accepted, proven send cannot be settled");
    }
    Ok(())
}

fn prices(s: &mut Src, m: &mut Sim) {
    let t = s.pick(&COINS);
    let p = if t == 0 { s.range(20_00000000, 200_00000000) } else { s.range(0_50000000, 5_00000000) };
    m.w.set_price(t, p as i64, p / 1000, -8);
    s.label("price changed");
}

fn pick_notes(s: &mut Src, m: &Sim, trick: usize) -> Option<Vec<usize>> {
    let t = s.pick(&m.coins);
    let mut k = m.unspent(t);
    match trick {
        6 => k = (0..m.notes.len()).filter(|&i| m.notes[i].token == t).collect(), // spent or not yet inserted ones, too
        7 => k = (0..m.notes.len()).filter(|&i| matches!(m.notes[i].place, Place::Inserted(_)) && !m.notes[i].spent).collect(), // of several tokens
        _ => {}
    }
    if k.is_empty() { return None }
    let n = s.usize(1, k.len().min(4));
    let mut p = s.permutation(k.len());
    p.truncate(n);
    Some(p.into_iter().map(|i| k[i]).collect())
}

fn history(s: &mut Src) -> Res {
    let mut w = template().clone();
    let rate = s.pick(&[0u32, 0, 1, 2]);
    with_acc!(w, pda::<GovernorAccount>(), GovernorAccount, |a| a.set_commitment_batching_rate(&rate));
    let mut coins = COINS.to_vec();
    for _ in 0..s.usize(1, 3) { let i = s.below(coins.len()); coins.remove(i); }
    let start = COINS.iter().map(|t| (*t, pool_balance(&w, *t))).collect();
    let mut m = Sim { w, rate, notes: vec![], queue: VecDeque::new(), tree: Tree::default(), pending: vec![], steps: BTreeMap::new(), payers: BTreeMap::new(), next: 0, start, spends: 0, next_index: 0, used: BTreeSet::new(), coins };
    for _ in 0..s.usize(1, 6) { deposit(s, &mut m)?; if let Some(&i) = m.steps.keys().last() { hash_base(s, &mut m, i, true)?; } }
    while m.queue.len() >= 1 << m.rate { crank(s, &mut m, true)?; }
    let n = s.usize(4, 30);
    for _ in 0..n {
        match s.weighted(&[3, 1, 3, 10, 4, 5, 1]) {
            0 => { deposit(s, &mut m)?; if s.chance(3, 4) { if let Some(&i) = m.steps.keys().last() { hash_base(s, &mut m, i, true)?; } } }
            1 => { let k: Vec<u32> = m.steps.keys().copied().collect(); if !k.is_empty() { let i = s.pick(&k); let all = s.bool(); hash_base(s, &mut m, i, all)?; } }
            2 => { let all = s.chance(3, 4); crank(s, &mut m, all)?; }
            3 => {
                let trick = if s.bool() { 0 } else { s.below(8) };
                if m.next_index < 100 { if let Some(k) = pick_notes(s, &m, trick) {
                    if start_send(s, &mut m, k, false, trick)? && s.bool() { let p = m.pending.len() - 1; prove(s, &mut m, p)?; if s.bool() { settle(s, &mut m, p, false)?; } }
                } }
            }
            4 => { if !m.pending.is_empty() { let p = s.below(m.pending.len()); prove(s, &mut m, p)?; } }
            5 => { if !m.pending.is_empty() { let p = s.below(m.pending.len()); settle(s, &mut m, p, false)?; } }
            _ => prices(s, &mut m),
        }
    }
    // everybody leaves: what is pending is settled, everything is hashed and withdrawn
    let all: Vec<u32> = m.steps.keys().copied().collect();
    for i in all { hash_base(s, &mut m, i, true)?; }
    for p in (0..m.pending.len()).rev() { prove(s, &mut m, p)?; settle(s, &mut m, p, true)?; }
    let mut left = 40;
    while left > 0 {
        left -= 1;
        while m.queue.len() >= 1 << m.rate || with_acc!(m.w, pda::<CommitmentHashingAccount>(), CommitmentHashingAccount, |a| a.get_is_active()) { crank(s, &mut m, true)?; }
        let mut done = true;
        for t in COINS {
            let mut k = m.unspent(t);
            k.retain(|&i| m.notes[i].amount > 0);
            k.truncate(4);
            if k.is_empty() { continue }
            if start_send(s, &mut m, k.clone(), true, 0)? {
                done = false;
                let p = m.pending.len() - 1;
                prove(s, &mut m, p)?;
                settle(s, &mut m, p, true)?;
                check!(k.iter().all(|&i| m.notes[i].spent), "stuck", "a withdrawal of token {t} was not settled");
                s.label("withdrawn at the end");
            }
        }
        if done { break }
    }
    s.label(&format!("rate {rate}"));
    if m.spends > 0 { let h = s.choices_hash(); s.nontrivial(h); }
    Ok(())
}

fn main() {
    kat();
    let _ = pda::<FeeCollectorAccount>();
    Suite::new("P29", "histories in which at least one commitment was spent")
        .assume("a proof is valid iff the prover knows the spent commitments (the circuits are not part of the repository); its verification is decided by P08")
        .assume("fee configuration and batching rate are constant during a history, as in the program")
        .test("histories", 800, 20_000, history)
        .main()
}
