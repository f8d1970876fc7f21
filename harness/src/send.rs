//! A private send (join-split verification) and the accounting the protocol prescribes for it
use crate::poseidon::*;
use crate::with_acc;
use crate::world::*;
use elusiv::processor::{FinalizeSendData, ProofRequest};
use elusiv::proof::verifier::prepare_public_inputs_instructions;
use elusiv::state::governor::{FeeCollectorAccount, PoolAccount};
use elusiv::state::proof::{VerificationAccount, VerificationState};
use elusiv::state::storage::StorageAccount;
use elusiv::token::{Lamports, TokenPrice, TOKENS};
use elusiv::types::{InputCommitment, JoinSplitPublicInputs, OptionalFee, PublicInputs, RawU256, SendPublicInputs};
use elusiv_types::tokens::Price;
use pbt::Src;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use solana_program::{system_instruction, sysvar};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Recipient {
    /// wallet (lamports only)
    Wallet,
    /// associated token account (the recipient is the wallet)
    Ata,
    /// any token account of the mint
    TokenAccount,
    /// an account which cannot receive the token
    Invalid,
}

#[derive(Clone)]
pub struct Send {
    pub token: u16,
    pub amount: u64,
    pub fee: u64,
    pub optional: (Pubkey, u64),
    pub metadata: [u8; 17],
    /// (root, nullifier hash), raw form
    pub inputs: Vec<(Option<B32>, B32)>,
    pub output: B32,
    pub recent: u32,
    pub kind: Recipient,
    /// the key bound by `hashed_inputs`
    pub recipient: Pubkey,
    pub solana_pay: bool,
    pub memo: Option<Vec<u8>>,
    pub identifier: Pubkey,
    pub reference: Option<Pubkey>,
    pub iv: B32,
    pub owner: B32,
    pub fee_version: u32,
    // -- warden --
    pub ofp: Pubkey,
    pub ofp_account: Pubkey,
    pub index: u8,
    pub skip_pda: bool,
    pub trees: [u32; 2],
}

pub fn sha_masked(parts: &[&[u8]]) -> B32 {
    let mut h = solana_program::hash::hashv(parts).to_bytes();
    h[31] &= 0x1f;
    h
}

impl Send {
    pub fn hashed_inputs(&self) -> B32 {
        let empty: &[u8] = &[];
        sha_masked(&[
            &self.recipient.to_bytes(), &self.identifier.to_bytes(), &self.iv, &self.owner, &self.reference.map(|r| r.to_bytes()).unwrap_or([0; 32]),
            &[(self.kind == Recipient::Ata) as u8], &self.metadata, &self.optional.0.to_bytes(), &self.optional.1.to_le_bytes(),
            self.memo.as_deref().unwrap_or(empty),
        ])
    }
    pub fn public_inputs(&self) -> SendPublicInputs {
        SendPublicInputs {
            join_split: JoinSplitPublicInputs {
                input_commitments: self.inputs.iter().map(|(r, n)| InputCommitment { root: r.map(RawU256::new), nullifier_hash: RawU256::new(*n) }).collect(),
                output_commitment: RawU256::new(self.output),
                recent_commitment_index: self.recent,
                fee_version: self.fee_version,
                amount: self.amount,
                fee: self.fee,
                optional_fee: OptionalFee { collector: self.optional.0, amount: self.optional.1 },
                token_id: self.token,
                metadata: self.metadata,
            },
            recipient_is_associated_token_account: self.kind == Recipient::Ata,
            solana_pay_transfer: self.solana_pay,
            hashed_inputs: self.hashed_inputs(),
        }
    }
    pub fn request(&self) -> ProofRequest { ProofRequest::Send(self.public_inputs()) }
    pub fn account(&self) -> Pubkey { pda_of::<VerificationAccount>(self.ofp, self.index as u32) }
    pub fn duplicate(&self) -> Pubkey { self.public_inputs().join_split.nullifier_duplicate_pda().0 }
    /// the account that is passed as `recipient`
    pub fn recipient_account(&self) -> Pubkey { if self.kind == Recipient::Ata { ata(&self.recipient, self.token) } else { self.recipient } }
    /// number of transactions for the preparation of the public inputs
    pub fn prep_count(&self) -> usize {
        let p = self.public_inputs();
        prepare_public_inputs_instructions(&p.public_signals_skip_mr(), SendPublicInputs::PUBLIC_INPUTS_COUNT).len()
    }

    pub fn init_ixs(&self, w: &World) -> Vec<Instruction> {
        vec![
            w.init_verification_ix(self.ofp, self.index, 0, self.trees, self.request(), self.duplicate(), self.identifier, self.skip_pda),
            w.transfer_fee_ix(self.ofp, self.ofp_account, self.index, self.token),
        ]
    }
    pub fn finalize_data(&self, w: &mut World) -> FinalizeSendData {
        let (ptr, trees) = with_acc!(w, pda::<StorageAccount>(), StorageAccount, |a| (a.get_next_commitment_ptr(), a.get_trees_count()));
        let n = ptr + commitment_queue(w).len() as u32;
        FinalizeSendData { total_amount: self.amount.wrapping_add(self.fee), token_id: self.token, mt_index: trees + (n >> 20), commitment_index: n & ((1 << 20) - 1), iv: self.iv, encrypted_owner: self.owner }
    }
    pub fn send_ix(&self, w: &mut World) -> Instruction {
        let d = self.finalize_data(w);
        w.finalize_send_ix(self.recipient, self.identifier, self.reference.unwrap_or(sysvar::instructions::ID), self.ofp, self.index, d, self.memo.is_some())
    }
    pub fn insert_ix(&self, w: &World) -> Instruction { w.insert_nullifier_ix(self.ofp, self.index, self.trees[0]) }
    pub fn transfer_ix(&self, w: &World) -> Instruction {
        if self.token == 0 { w.transfer_lamports_ix(self.ofp, self.recipient_account(), self.optional.0, self.index, self.duplicate()) }
        else { w.transfer_token_ix(self.ofp, self.ofp_account, self.recipient_account(), self.recipient, self.optional.0, self.token, self.index, self.duplicate()) }
    }
    pub fn memo_ix(&self) -> Option<Instruction> { self.memo.as_ref().map(|m| Instruction { program_id: svm::memo_id(), accounts: vec![], data: m.clone() }) }
    /// what the fee payer has to transfer to the recipient as last instruction (Solana Pay)
    pub fn pay_ix(&self, w: &World, fees: &Fees) -> Option<Instruction> {
        if !self.solana_pay || self.amount == 0 { return None }
        let n = self.received(w, fees);
        Some(if self.token == 0 { system_instruction::transfer(&self.ofp, &self.recipient, n) } else {
            spl_token::instruction::transfer(&spl_token::ID, &self.ofp_account, &self.actual_recipient(w), &self.ofp, &[&self.ofp], n).unwrap()
        })
    }
    pub fn finalize_ixs(&self, w: &mut World, fees: &Fees, valid: bool) -> Vec<Instruction> {
        let mut v = vec![self.send_ix(w)];
        if valid { for _ in 0..self.inputs.len() { v.push(self.insert_ix(w)); } }
        v.push(self.transfer_ix(w));
        v.extend(self.memo_ix());
        // (the memo is the second last instruction of a Solana Pay transaction)
        if valid { v.extend(self.pay_ix(w, fees)); } else if self.solana_pay { v.push(system_instruction::transfer(&self.ofp, &self.ofp, 0)); }
        v
    }

    /// account that receives the amount
    pub fn actual_recipient(&self, w: &World) -> Pubkey {
        if self.token != 0 && self.kind != Recipient::Ata && !is_token_account(w, &self.recipient, self.token) { return ata(&pda::<FeeCollectorAccount>(), self.token) }
        self.recipient_account()
    }
    pub fn creates_ata(&self, w: &World) -> bool { self.token != 0 && self.kind == Recipient::Ata && self.amount > 0 && w.svm.owner(&self.recipient_account()) != spl_token::ID }
    /// amount the recipient receives
    pub fn received(&self, w: &World, f: &Fees) -> u64 {
        if self.amount == 0 { return 0 }
        self.amount - self.optional.1 - if self.creates_ata(w) { f.ata_rent_token } else { 0 }
    }
}

pub fn is_token_account(w: &World, k: &Pubkey, token: u16) -> bool {
    use solana_program::program_pack::Pack;
    w.svm.owner(k) == spl_token::ID && spl_token::state::Account::unpack(w.svm.data(k)).map(|a| a.mint == TOKENS[token as usize].mint).unwrap_or(false)
}

/// The fee components fixed when the fee is transferred
#[derive(Clone, Debug, PartialEq)]
pub struct Fees { pub hash_lamports: u64, pub hash_token: u64, pub verification: u64, pub network: u64, pub subvention: u64, pub ata_rent: u64, pub ata_rent_token: u64 }

impl Fees {
    pub fn min_fee(&self) -> u64 { self.hash_token + self.verification + self.network - self.subvention }
}

pub fn token_price(w: &World, token: u16) -> TokenPrice {
    if token == 0 { return TokenPrice::new_lamports() }
    let load = |t: u16| {
        let mut l = 0u64;
        let mut d = w.svm.data(&TOKENS[t as usize].pyth_usd_price_key).to_vec();
        let (k, o) = (TOKENS[t as usize].pyth_usd_price_key, user("pyth"));
        let a = solana_program::account_info::AccountInfo::new(&k, false, false, &mut l, &mut d, &o, false, 0);
        TokenPrice::load_token_usd_price(&a, t).ok()
    };
    let bad = Price { price: 0, conf: 0, expo: 0 };
    TokenPrice::new_from_price(load(0).unwrap_or(bad), load(token).unwrap_or(bad), token)
}

/// Fee components of a send according to the fee model (independent formulas; the price conversion is the subject of its own property)
pub fn fees(w: &World, s: &Send, batching_rate: u32) -> Option<Fees> {
    let f = &w.fee;
    let price = token_price(w, s.token);
    let conv = |l: u64| Lamports(l).into_token(&price, s.token).ok().map(|t| t.amount());
    let (tx, reward) = (f.lamports_per_tx.0, f.warden_hash_tx_reward.0);
    let hash_txs = [24u64, 24, 25, 29, 37][batching_rate as usize];
    let per_batch = 1u64 << batching_rate;
    let hash_lamports = (hash_txs * (tx + reward) + per_batch - 1) / per_batch;
    let verification = (s.prep_count() as u64 + f.proof_base_tx_count) * tx + f.warden_proof_reward.0;
    let ata_rent = if s.kind == Recipient::Ata { rent_exempt(165) } else { 0 };
    Some(Fees {
        hash_lamports,
        hash_token: conv(hash_lamports)?,
        verification: conv(verification)?,
        network: (f.proof_network_fee.0 as u128 * s.amount as u128 / 10_000) as u64,
        subvention: conv(f.proof_subvention.0)?,
        ata_rent,
        ata_rent_token: conv(ata_rent)?,
    })
}

/// Balance changes, keyed by account (lamports) or (token account, token)
#[derive(Default, Clone, Debug)]
pub struct Deltas(pub BTreeMap<(Pubkey, u16), i128>);
impl Deltas {
    pub fn add(&mut self, k: Pubkey, token: u16, v: u64) { *self.0.entry((k, token)).or_default() += v as i128; }
    pub fn sub(&mut self, k: Pubkey, token: u16, v: u64) { *self.0.entry((k, token)).or_default() -= v as i128; }
    pub fn mv(&mut self, from: Pubkey, to: Pubkey, token: u16, v: u64) { self.sub(from, token, v); self.add(to, token, v); }
    pub fn merge(&mut self, o: &Deltas) { for (k, v) in &o.0 { *self.0.entry(*k).or_default() += v; } }
}

/// all lamports / token balances
pub fn balances(w: &World) -> BTreeMap<(Pubkey, u16), u64> {
    let mut m = BTreeMap::new();
    for (k, a) in &w.svm.accounts {
        if a.lamports > 0 { m.insert((*k, 0u16), a.lamports); }
        if a.owner == spl_token::ID && a.data.len() == 165 {
            let mint = Pubkey::new_from_array(a.data[..32].try_into().unwrap());
            if let Some(t) = TOKENS.iter().position(|t| t.mint == mint) { if t > 0 { m.insert((*k, t as u16), w.svm.token_balance(k)); } }
        }
    }
    m
}

/// compares the actual changes with the expected ones; None if equal
pub fn difference(before: &BTreeMap<(Pubkey, u16), u64>, after: &BTreeMap<(Pubkey, u16), u64>, want: &Deltas, name: impl Fn(&Pubkey) -> String) -> Option<String> {
    let mut keys: Vec<_> = before.keys().chain(after.keys()).chain(want.0.keys()).copied().collect();
    keys.sort();
    keys.dedup();
    for k in keys {
        let d = after.get(&k).copied().unwrap_or(0) as i128 - before.get(&k).copied().unwrap_or(0) as i128;
        let e = want.0.get(&k).copied().unwrap_or(0);
        if d != e { return Some(format!("{} (token {}): changed by {d}, expected {e}", name(&k.0), k.1)) }
    }
    None
}

pub fn pool_acc(token: u16) -> Pubkey { acc_of(&pda::<PoolAccount>(), token) }
pub fn collector_acc(token: u16) -> Pubkey { acc_of(&pda::<FeeCollectorAccount>(), token) }

/// fee payment at initialisation
pub fn expected_fee_transfer(s: &Send, f: &Fees) -> Deltas {
    let mut d = Deltas::default();
    d.mv(s.ofp, pda::<PoolAccount>(), 0, f.hash_lamports + f.ata_rent);
    d.mv(collector_acc(s.token), pool_acc(s.token), s.token, f.subvention);
    d
}

/// payout of a valid proof (`w`: before the transaction, `rents`: lamports of the closed accounts)
pub fn expected_payout(w: &World, s: &Send, f: &Fees, rents: u64) -> Deltas {
    let mut d = Deltas::default();
    let (pool, t) = (pool_acc(s.token), s.token);
    let created = s.creates_ata(w);
    if s.amount > 0 {
        // with Solana Pay the amount takes a detour over the fee payer
        d.mv(pool, s.actual_recipient(w), t, s.received(w, f));
        d.mv(pool, s.optional.0, t, s.optional.1);
        if s.kind == Recipient::Ata && t != 0 {
            d.mv(pda::<PoolAccount>(), s.ofp, 0, f.ata_rent);
            if created { d.mv(s.ofp, s.recipient_account(), 0, rent_exempt(165).saturating_sub(w.svm.lamports(&s.recipient_account()))); d.mv(pool, s.ofp_account, t, f.ata_rent_token); }
        }
    }
    d.mv(pool, s.ofp_account, t, f.hash_token + f.verification);
    d.mv(pool, collector_acc(t), t, f.network);
    d.add(s.ofp, 0, rents);
    d
}

/// an invalid proof: everything the fee payer deposited is forfeited to the fee collector
pub fn expected_forfeit(s: &Send, f: &Fees, rents: u64) -> Deltas {
    let mut d = Deltas::default();
    let fc = pda::<FeeCollectorAccount>();
    d.mv(pool_acc(s.token), collector_acc(s.token), s.token, f.subvention);
    d.mv(pda::<PoolAccount>(), fc, 0, f.hash_lamports + f.ata_rent);
    d.add(fc, 0, rents);
    d
}

/// state of a verification account (None: does not exist)
pub fn state(w: &mut World, s: &Send) -> Option<(VerificationState, Option<bool>)> {
    if !w.opened(&s.account()) { return None }
    Some(with_acc!(w, s.account(), VerificationAccount, |a| (a.get_state(), a.get_is_verified().option())))
}

pub fn gen_field(s: &mut Src) -> B32 { fr_to_le(&fr_from_le(&s.bytes::<32>())) }
