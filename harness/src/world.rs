//! A deployed elusiv program inside the mini runtime: accounts set up by the program's own instructions,
//! instruction builders (account order as in `ElusivInstruction`) and readers for the accounts' contents.
use borsh::{BorshDeserialize, BorshSerialize};
use elusiv::instruction::ElusivInstruction;
use elusiv::processor::{BaseCommitmentHashRequest, FinalizeSendData, ProofRequest};
use elusiv::state::commitment::*;
use elusiv::state::fee::{BasisPointFee, FeeAccount, ProgramFee};
use elusiv::state::governor::{FeeCollectorAccount, GovernorAccount, PoolAccount};
use elusiv::state::metadata::{CommitmentMetadata, MetadataAccount, MetadataQueueAccount};
use elusiv::state::nullifier::NullifierAccount;
use elusiv::state::proof::VerificationAccount;
use elusiv::state::storage::StorageAccount;
use elusiv::state::vkey::VKeyAccount;
use elusiv::token::{Lamports, TOKENS};
use elusiv::types::Proof;
use elusiv_types::accounts::*;
use elusiv_types::BorshSerDeSized;
use pbt::Src;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_program::{system_program, sysvar};
use std::collections::BTreeMap;
use std::sync::Mutex;
pub use svm::{rent_exempt, Svm, TxError, TxResult};

pub type B32 = [u8; 32];

pub fn r(k: Pubkey) -> AccountMeta { AccountMeta::new_readonly(k, false) }
pub fn w(k: Pubkey) -> AccountMeta { AccountMeta::new(k, false) }
pub fn rs(k: Pubkey) -> AccountMeta { AccountMeta::new_readonly(k, true) }
pub fn ws(k: Pubkey) -> AccountMeta { AccountMeta::new(k, true) }

/// A deterministic non-PDA-looking key
pub fn user(name: &str) -> Pubkey {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&pbt::fnv(name.as_bytes()).to_le_bytes());
    b[8..16].copy_from_slice(&pbt::fnv(format!("{name}/").as_bytes()).to_le_bytes());
    b[31] = 9;
    Pubkey::new_from_array(b)
}

fn cached(key: (&'static [u8], Option<Pubkey>, Option<u32>), f: impl FnOnce() -> (Pubkey, u8)) -> (Pubkey, u8) {
    static C: Mutex<BTreeMap<(&'static [u8], Option<Pubkey>, Option<u32>), (Pubkey, u8)>> = Mutex::new(BTreeMap::new());
    if let Some(v) = C.lock().unwrap().get(&key) { return *v; }
    let v = f();
    C.lock().unwrap().insert(key, v);
    v
}

pub fn pda<T: PDAAccount>() -> Pubkey { cached((T::SEED, None, None), || T::find(None)).0 }
pub fn pda_at<T: PDAAccount>(offset: u32) -> (Pubkey, u8) { cached((T::SEED, None, Some(offset)), || T::find(Some(offset))) }
pub fn pda_of<T: PDAAccount>(pk: Pubkey, offset: u32) -> Pubkey { cached((T::SEED, Some(pk), Some(offset)), || T::find_with_pubkey(pk, Some(offset))).0 }

pub fn ata(owner: &Pubkey, token: u16) -> Pubkey {
    cached((b"ata", Some(*owner), Some(token as u32)), || (spl_associated_token_account::get_associated_token_address(owner, &TOKENS[token as usize].mint), 0)).0
}
/// the account of `owner` which holds the token (itself for lamports)
pub fn acc_of(owner: &Pubkey, token: u16) -> Pubkey { if token == 0 { *owner } else { ata(owner, token) } }

pub fn ix(data: ElusivInstruction, accounts: Vec<AccountMeta>) -> Instruction {
    Instruction { program_id: elusiv::id(), accounts, data: data.try_to_vec().unwrap() }
}

pub fn child_key(kind: &str, tree: u32, i: usize) -> Pubkey { user(&format!("child/{kind}/{tree}/{i}")) }

/// `Account::new(bytes)` for reading / writing state of a world's account
#[macro_export]
macro_rules! with_acc {
    ($w:expr, $key:expr, $ty:ident, |$a:ident| $body:expr) => {{
        let key = $key;
        let mut data: Vec<u8> = $w.svm.data(&key).to_vec();
        #[allow(unused_mut)]
        let out = { let mut $a = <$ty as elusiv_types::accounts::ProgramAccount>::new(&mut data).unwrap(); $body };
        if data != $w.svm.data(&key) { *$w.svm.data_mut(&key) = data; }
        out
    }};
}

pub const STORAGE_START_CHILDREN: [usize; 5] = [0, 1, 3, 6, 12];

#[derive(Clone)]
pub struct World {
    pub svm: Svm,
    pub payer: Pubkey,
    pub storage_children: Vec<usize>,
    pub nullifier_children: Vec<usize>,
    pub metadata_children: Vec<usize>,
    pub fee: ProgramFee,
}

pub fn clone_fee(f: &ProgramFee) -> ProgramFee { ProgramFee::try_from_slice(&f.try_to_vec().unwrap()).unwrap() }

pub fn fee(v: [u64; 7]) -> ProgramFee {
    ProgramFee {
        lamports_per_tx: Lamports(v[0]),
        base_commitment_network_fee: BasisPointFee(v[1]),
        proof_network_fee: BasisPointFee(v[2]),
        base_commitment_subvention: Lamports(v[3]),
        proof_subvention: Lamports(v[4]),
        warden_hash_tx_reward: Lamports(v[5]),
        warden_proof_reward: Lamports(v[6]),
        proof_base_tx_count: ProgramFee::proof_base_tx_count(),
    }
}

/// An arbitrary fee, which the program accepts (subventions bounded by the cheapest commitment hash fee)
pub fn gen_fee(s: &mut Src) -> ProgramFee {
    let per_tx = s.pick(&[5000u64, 0, 1, 10_000, 123_457]);
    let reward = s.pick(&[300u64, 0, 1, 7_777]);
    let bps = |s: &mut Src| s.pick(&[50u64, 0, 1, 100, 333, 10_000]);
    let mut f = fee([per_tx, bps(s), bps(s), 0, 0, reward, s.pick(&[300u64, 0, 1_000_001])]);
    let min = (0..5).map(|b| f.commitment_hash_computation_fee(b).0).min().unwrap();
    f.base_commitment_subvention = Lamports(s.pick(&[0u64, 1, 99, 1_000]).min(min));
    f.proof_subvention = Lamports(s.pick(&[0u64, 1, 999, 20_000]).min(min));
    f
}

pub fn price_account(price: i64, conf: u64, expo: i32) -> Vec<u8> {
    use pyth_sdk_solana::state::{AccountType, PriceAccount, MAGIC, VERSION_2};
    let mut a = PriceAccount { magic: MAGIC, ver: VERSION_2, atype: AccountType::Price as u32, expo, ..Default::default() };
    a.agg.price = price;
    a.prev_price = price;
    a.agg.conf = conf;
    a.prev_conf = conf;
    a.agg.status = pyth_sdk_solana::PriceStatus::Trading;
    bytemuck::bytes_of(&a).to_vec()
}

pub const SOL: u64 = 1_000_000_000;

impl World {
    /// The program after deployment and initialisation, without any child account
    pub fn bare(fee: ProgramFee) -> World {
        let mut svm = Svm::new(&[(elusiv::id(), elusiv::process_instruction)]);
        let payer = user("deployer");
        svm.airdrop(&payer, 1_000_000 * SOL);
        let mut w_ = World { svm, payer, storage_children: vec![], nullifier_children: vec![], metadata_children: vec![], fee: clone_fee(&fee) };
        let sg = [payer];
        let ixs = [
            open_single_instance(payer), create_new_accounts_v1(payer), open_nullifier(payer, 0), open_nullifier(payer, 1),
            setup_governor(payer), init_fee(payer, 0, fee),
        ];
        for i in ixs { w_.svm.tx(&[i], &sg).expect("program initialisation"); }
        // the fee-collector and pool hold funds of earlier use
        w_.svm.airdrop(&pda::<FeeCollectorAccount>(), 5 * SOL);
        w_.svm.airdrop(&pda::<PoolAccount>(), 5 * SOL);
        for (i, t) in TOKENS.iter().enumerate() {
            if i > 0 {
                w_.svm.put_mint(t.mint, t.decimals);
                for o in [pda::<PoolAccount>(), pda::<FeeCollectorAccount>()] {
                    w_.svm.put_token_account(ata(&o, i as u16), t.mint, o, 1_000_000_000_000);
                }
            }
        }
        w_.set_price(0, 39_00000000, 100, -8);
        for i in 1..TOKENS.len() { w_.set_price(i as u16, 1_00000000, 100, -8); }
        w_
    }

    pub fn set_price(&mut self, token: u16, price: i64, conf: u64, expo: i32) {
        self.svm.put_exempt(TOKENS[token as usize].pyth_usd_price_key, user("pyth"), price_account(price, conf, expo));
    }

    /// bare + enabled child accounts
    pub fn full(fee: ProgramFee, storage: &[usize], nullifier: &[usize], metadata: &[usize]) -> World {
        let mut w_ = World::bare(fee);
        for &c in storage { w_.enable_storage_child(c); }
        for &c in nullifier { w_.enable_nullifier_child(0, c); }
        for &c in metadata { w_.enable_metadata_child(c); }
        w_
    }

    pub fn enable_storage_child(&mut self, c: usize) {
        let k = child_key("storage", 0, c);
        self.svm.put_exempt(k, elusiv::id(), vec![0; <<StorageAccount as ParentAccount>::Child as SizedAccount>::SIZE]);
        self.svm.tx(&[ix(ElusivInstruction::EnableStorageChildAccount { child_index: c as u32 }, vec![w(pda::<StorageAccount>()), w(k)])], &[]).expect("enable storage child");
        self.storage_children.push(c);
        self.storage_children.sort();
    }
    pub fn enable_nullifier_child(&mut self, tree: u32, c: usize) {
        let k = child_key("nullifier", tree, c);
        self.svm.put_exempt(k, elusiv::id(), vec![0; <<NullifierAccount as ParentAccount>::Child as SizedAccount>::SIZE]);
        self.svm.tx(&[ix(ElusivInstruction::EnableNullifierChildAccount { mt_index: tree, child_index: c as u32 }, vec![w(pda_at::<NullifierAccount>(tree).0), w(k)])], &[]).expect("enable nullifier child");
        if tree == 0 { self.nullifier_children.push(c); self.nullifier_children.sort(); }
    }
    pub fn enable_metadata_child(&mut self, c: usize) {
        let k = child_key("metadata", 0, c);
        self.svm.put_exempt(k, elusiv::id(), vec![0; <<MetadataAccount as ParentAccount>::Child as SizedAccount>::SIZE]);
        self.svm.tx(&[ix(ElusivInstruction::EnableMetadataChildAccount { child_index: c as u32 }, vec![w(pda::<MetadataAccount>()), w(k)])], &[]).expect("enable metadata child");
        self.metadata_children.push(c);
        self.metadata_children.sort();
    }

    /// Funds a wallet with lamports and every token
    pub fn fund(&mut self, k: &Pubkey, lamports: u64, tokens: u64) {
        self.svm.airdrop(k, lamports);
        if tokens > 0 { for t in 1..TOKENS.len() as u16 { self.svm.put_token_account(ata(k, t), TOKENS[t as usize].mint, *k, tokens); } }
    }

    /// the account was created by the program (an address that only holds lamports was not)
    pub fn opened(&self, k: &Pubkey) -> bool { self.svm.owner(k) == elusiv::id() }
    /// somebody sends lamports to an address at which an account may be created later
    pub fn prefund(&mut self, s: &mut pbt::Src, k: &Pubkey, size: usize) {
        if self.svm.exists(k) { return }
        let l = s.pick(&[rent_exempt(0), rent_exempt(0) + 1, rent_exempt(size) - 1, rent_exempt(size), rent_exempt(size) + 12345]);
        self.svm.airdrop(k, l);
        s.label("address funded in advance");
    }

    /// lamports (token 0) or token balance
    pub fn balance(&self, owner: &Pubkey, token: u16) -> u64 {
        if token == 0 { self.svm.lamports(owner) } else { self.svm.token_balance(&ata(owner, token)) }
    }

    pub fn storage_metas(&self, writable: bool) -> Vec<AccountMeta> { self.metas::<StorageAccount>(pda::<StorageAccount>(), "storage", 0, &self.storage_children, writable) }
    pub fn nullifier_metas(&self, tree: u32, writable: bool) -> Vec<AccountMeta> {
        let other: Vec<usize> = if tree == 0 { vec![] } else { (0..2).filter(|&c| self.svm.exists(&child_key("nullifier", tree, c))).collect() };
        let c: &[usize] = if tree == 0 { &self.nullifier_children } else { &other };
        self.metas::<NullifierAccount>(pda_at::<NullifierAccount>(tree).0, "nullifier", tree, c, writable)
    }
    pub fn metadata_metas(&self, writable: bool) -> Vec<AccountMeta> { self.metas::<MetadataAccount>(pda::<MetadataAccount>(), "metadata", 0, &self.metadata_children, writable) }
    fn metas<T>(&self, parent: Pubkey, kind: &str, tree: u32, children: &[usize], writable: bool) -> Vec<AccountMeta> {
        let m = |k| if writable { w(k) } else { r(k) };
        let mut v = vec![m(parent)];
        for &c in children { v.push(m(child_key(kind, tree, c))); }
        v
    }

    // -- builders --
    pub fn store_ix(&self, sender: Pubkey, fee_payer: Pubkey, index: u32, request: BaseCommitmentHashRequest, metadata: CommitmentMetadata) -> Instruction {
        let t = request.token_id;
        let tt = if (t as usize) < TOKENS.len() { t } else { 1 };
        let (h, bump) = pda_at::<BaseCommitmentHashingAccount>(index);
        let (pool, fc) = (pda::<PoolAccount>(), pda::<FeeCollectorAccount>());
        ix(ElusivInstruction::StoreBaseCommitment { hash_account_index: index, hash_account_bump: bump, request, metadata }, vec![
            rs(sender), w(acc_of(&sender, tt)), ws(fee_payer), w(acc_of(&fee_payer, tt)), w(pool), w(acc_of(&pool, tt)), w(fc), w(acc_of(&fc, tt)),
            r(TOKENS[0].pyth_usd_price_key), r(TOKENS[tt as usize].pyth_usd_price_key), r(pda::<GovernorAccount>()), r(pda::<StorageAccount>()), w(h), w(pda::<BaseCommitmentBufferAccount>()),
            r(if t == 0 { system_program::ID } else { spl_token::ID }), r(system_program::ID),
        ])
    }
    pub fn compute_base_ix(&self, index: u32) -> Instruction {
        ix(ElusivInstruction::ComputeBaseCommitmentHash { hash_account_index: index }, vec![w(pda_at::<BaseCommitmentHashingAccount>(index).0)])
    }
    pub fn finalize_base_ix(&self, fee_payer: Pubkey, index: u32, fee_version: u32) -> Instruction {
        ix(ElusivInstruction::FinalizeBaseCommitmentHash { hash_account_index: index, fee_version }, vec![
            w(fee_payer), w(pda::<PoolAccount>()), r(pda_at::<FeeAccount>(fee_version).0), w(pda_at::<BaseCommitmentHashingAccount>(index).0),
            w(pda::<CommitmentQueueAccount>()), w(pda::<MetadataQueueAccount>()),
        ])
    }
    pub fn setup_hash_ix(&self, can_fail: bool) -> Instruction {
        let mut a = vec![w(pda::<CommitmentHashingAccount>())];
        a.extend(self.storage_metas(false));
        ix(ElusivInstruction::InitCommitmentHashSetup { insertion_can_fail: can_fail }, a)
    }
    pub fn init_hash_ix(&self, can_fail: bool, with_children: bool) -> Instruction {
        let mut a = vec![w(pda::<CommitmentQueueAccount>()), w(pda::<MetadataQueueAccount>()), w(pda::<CommitmentHashingAccount>())];
        let m = self.metadata_metas(true);
        a.extend(if with_children { m } else { m[..1].to_vec() });
        ix(ElusivInstruction::InitCommitmentHash { insertion_can_fail: can_fail }, a)
    }
    pub fn compute_hash_ix(&self, fee_payer: Pubkey, fee_version: u32, nonce: u32) -> Instruction {
        ix(ElusivInstruction::ComputeCommitmentHash { fee_version, nonce }, vec![ws(fee_payer), r(pda_at::<FeeAccount>(fee_version).0), w(pda::<PoolAccount>()), w(pda::<CommitmentHashingAccount>())])
    }
    pub fn finalize_hash_ix(&self) -> Instruction {
        let mut a = vec![w(pda::<CommitmentHashingAccount>())];
        a.extend(self.storage_metas(true));
        ix(ElusivInstruction::FinalizeCommitmentHash, a)
    }
    pub fn init_verification_ix(&self, fee_payer: Pubkey, index: u8, vkey_id: u32, tree_indices: [u32; 2], request: ProofRequest, nullifier_duplicate: Pubkey, identifier: Pubkey, skip_nullifier_pda: bool) -> Instruction {
        let mut a = vec![ws(fee_payer), w(pda_of::<VerificationAccount>(fee_payer, index as u32)), r(pda_at::<VKeyAccount>(vkey_id).0), w(nullifier_duplicate),
            r(system_program::ID), r(identifier), r(pda::<StorageAccount>()), w(pda::<CommitmentBufferAccount>())];
        a.extend(self.nullifier_metas(tree_indices[0], false));
        a.extend(self.nullifier_metas(tree_indices[1], false));
        ix(ElusivInstruction::InitVerification { verification_account_index: index, vkey_id, tree_indices, request, skip_nullifier_pda }, a)
    }
    pub fn transfer_fee_ix(&self, fee_payer: Pubkey, fee_payer_account: Pubkey, index: u8, token: u16) -> Instruction {
        let (pool, fc) = (pda::<PoolAccount>(), pda::<FeeCollectorAccount>());
        ix(ElusivInstruction::InitVerificationTransferFee { verification_account_index: index }, vec![
            ws(fee_payer), w(fee_payer_account), w(pool), w(acc_of(&pool, token)), w(fc), w(acc_of(&fc, token)),
            r(TOKENS[0].pyth_usd_price_key), r(TOKENS[token as usize].pyth_usd_price_key), r(pda::<GovernorAccount>()), w(pda_of::<VerificationAccount>(fee_payer, index as u32)),
            r(if token == 0 { system_program::ID } else { spl_token::ID }), r(system_program::ID),
        ])
    }
    pub fn init_proof_ix(&self, fee_payer: Pubkey, index: u8, proof: Proof) -> Instruction {
        ix(ElusivInstruction::InitVerificationProof { verification_account_index: index, proof }, vec![rs(fee_payer), w(pda_of::<VerificationAccount>(fee_payer, index as u32))])
    }
    pub fn compute_verification_ix(&self, ofp: Pubkey, index: u8, vkey_id: u32, vkey_children: &[Pubkey]) -> Instruction {
        let mut a = vec![r(ofp), w(pda_of::<VerificationAccount>(ofp, index as u32)), r(pda_at::<VKeyAccount>(vkey_id).0)];
        a.extend(vkey_children.iter().map(|k| r(*k)));
        a.push(r(sysvar::instructions::ID));
        ix(ElusivInstruction::ComputeVerification { verification_account_index: index, vkey_id }, a)
    }
    pub fn finalize_send_ix(&self, recipient: Pubkey, identifier: Pubkey, reference: Pubkey, ofp: Pubkey, index: u8, data: FinalizeSendData, uses_memo: bool) -> Instruction {
        ix(ElusivInstruction::FinalizeVerificationSend { verification_account_index: index, data, uses_memo }, vec![
            r(recipient), r(identifier), r(reference), r(ofp), w(pda::<CommitmentQueueAccount>()), w(pda_of::<VerificationAccount>(ofp, index as u32)), r(pda::<StorageAccount>()),
            w(pda::<CommitmentBufferAccount>()), r(sysvar::instructions::ID),
        ])
    }
    pub fn insert_nullifier_ix(&self, ofp: Pubkey, index: u8, tree: u32) -> Instruction {
        let mut a = vec![r(ofp), w(pda_of::<VerificationAccount>(ofp, index as u32))];
        a.extend(self.nullifier_metas(tree, true));
        ix(ElusivInstruction::FinalizeVerificationInsertNullifier { verification_account_index: index }, a)
    }
    pub fn transfer_lamports_ix(&self, ofp: Pubkey, recipient: Pubkey, optional: Pubkey, index: u8, nullifier_duplicate: Pubkey) -> Instruction {
        ix(ElusivInstruction::FinalizeVerificationTransferLamports { verification_account_index: index }, vec![
            ws(ofp), w(recipient), w(pda::<PoolAccount>()), w(pda::<FeeCollectorAccount>()), w(optional), w(pda::<CommitmentQueueAccount>()), w(pda::<MetadataQueueAccount>()),
            w(pda_of::<VerificationAccount>(ofp, index as u32)), w(nullifier_duplicate), r(system_program::ID), r(sysvar::instructions::ID),
        ])
    }
    pub fn transfer_token_ix(&self, ofp: Pubkey, ofp_account: Pubkey, recipient: Pubkey, recipient_wallet: Pubkey, optional: Pubkey, token: u16, index: u8, nullifier_duplicate: Pubkey) -> Instruction {
        let (pool, fc) = (pda::<PoolAccount>(), pda::<FeeCollectorAccount>());
        ix(ElusivInstruction::FinalizeVerificationTransferToken { verification_account_index: index }, vec![
            ws(ofp), w(ofp_account), w(recipient), r(recipient_wallet), w(pool), w(ata(&pool, token)), w(fc), w(ata(&fc, token)), w(optional),
            w(pda::<CommitmentQueueAccount>()), w(pda::<MetadataQueueAccount>()), w(pda_of::<VerificationAccount>(ofp, index as u32)), w(nullifier_duplicate),
            r(spl_associated_token_account::ID), r(spl_token::ID), r(system_program::ID), r(TOKENS[token as usize].mint), r(sysvar::instructions::ID),
        ])
    }

    /// Puts a commitment hash into the queues, as if a computation finished
    pub fn enqueue(&mut self, commitment: B32, metadata: CommitmentMetadata, fee_version: u32, min_batching_rate: u32) {
        use elusiv::state::metadata::MetadataQueue;
        use elusiv::state::queue::{Queue, RingQueue};
        with_acc!(self, pda::<CommitmentQueueAccount>(), CommitmentQueueAccount, |a| CommitmentQueue::new(&mut a).enqueue(elusiv::processor::CommitmentHashRequest { commitment, fee_version, min_batching_rate }).unwrap());
        with_acc!(self, pda::<MetadataQueueAccount>(), MetadataQueueAccount, |a| MetadataQueue::new(&mut a).enqueue(metadata).unwrap());
    }
    /// One complete run of the commitment crank
    pub fn crank(&mut self, warden: Pubkey, rate: u32) {
        let run = |w_: &mut World, i: Instruction, s: &[Pubkey]| { w_.svm.tx(&[i], s).expect("crank"); };
        let i = self.setup_hash_ix(false);
        run(self, i, &[]);
        let i = self.init_hash_ix(false, true);
        run(self, i, &[]);
        for _ in 0..elusiv::commitment::commitment_hash_computation_instructions(rate).len() { let i = self.compute_hash_ix(warden, 0, 0); run(self, i, &[warden]); }
        for _ in 0..=rate { let i = self.finalize_hash_ix(); run(self, i, &[]); }
    }

    /// Takes the storage account with its child accounts out of the world (until `put_storage`)
    pub fn take_storage(&mut self) -> crate::acct::Parent {
        let data = std::mem::take(self.svm.data_mut(&pda::<StorageAccount>()));
        let mut children = vec![None; StorageAccount::COUNT];
        for &c in &self.storage_children.clone() { children[c] = Some(std::mem::take(self.svm.data_mut(&child_key("storage", 0, c)))); }
        crate::acct::Parent { data, children }
    }
    pub fn put_storage(&mut self, p: crate::acct::Parent) {
        *self.svm.data_mut(&pda::<StorageAccount>()) = p.data;
        for (c, d) in p.children.into_iter().enumerate() { if let Some(d) = d { *self.svm.data_mut(&child_key("storage", 0, c)) = d; } }
    }

    /// Registers a verifying key account which counts as set up (contents given as a child account)
    pub fn put_vkey(&mut self, id: u32, public_inputs: u32, child: Option<Vec<u8>>) -> Option<Pubkey> {
        let (k, bump) = pda_at::<VKeyAccount>(id);
        let mut d = vec![0u8; VKeyAccount::SIZE];
        d[0] = bump;
        let ck = child.map(|c| {
            let ck = child_key("vkey", id, 0);
            let mut data = vec![1u8];
            data.extend(c);
            self.svm.put_exempt(ck, elusiv::id(), data);
            ck
        });
        {
            let mut a = <VKeyAccount as ProgramAccount>::new(&mut d).unwrap();
            a.set_public_inputs_count(&public_inputs);
            a.set_version(&1);
            a.set_is_frozen(&true);
            if let Some(ck) = ck { a.set_child_pubkey(0, elusiv_types::ElusivOption::Some(ck)); }
        }
        self.svm.put_exempt(k, elusiv::id(), d);
        ck
    }
}

pub fn open_single_instance(payer: Pubkey) -> Instruction {
    ix(ElusivInstruction::OpenSingleInstanceAccounts, vec![ws(payer), w(pda::<PoolAccount>()), w(pda::<FeeCollectorAccount>()), w(pda::<CommitmentHashingAccount>()),
        w(pda::<CommitmentQueueAccount>()), w(pda::<StorageAccount>()), w(pda::<BaseCommitmentBufferAccount>()), r(system_program::ID)])
}
pub fn create_new_accounts_v1(payer: Pubkey) -> Instruction {
    ix(ElusivInstruction::CreateNewAccountsV1, vec![ws(payer), w(pda::<CommitmentBufferAccount>()), w(pda::<MetadataQueueAccount>()), w(pda::<MetadataAccount>()),
        r(pda::<StorageAccount>()), r(pda::<CommitmentHashingAccount>()), w(pda::<CommitmentQueueAccount>()), r(system_program::ID)])
}
pub fn open_nullifier(payer: Pubkey, tree: u32) -> Instruction {
    ix(ElusivInstruction::OpenNullifierAccount { mt_index: tree }, vec![ws(payer), w(pda_at::<NullifierAccount>(tree).0), r(system_program::ID)])
}
pub fn setup_governor(payer: Pubkey) -> Instruction {
    ix(ElusivInstruction::SetupGovernorAccount, vec![ws(payer), w(pda::<GovernorAccount>()), r(system_program::ID)])
}
pub fn init_fee(payer: Pubkey, version: u32, fee: ProgramFee) -> Instruction {
    ix(ElusivInstruction::InitNewFeeVersion { fee_version: version, program_fee: fee }, vec![ws(payer), w(pda::<GovernorAccount>()), w(pda_at::<FeeAccount>(version).0), r(system_program::ID)])
}
pub fn reset_mt(world: &World, index: u32) -> Instruction {
    let mut a = world.storage_metas(true);
    a.extend([w(pda::<CommitmentQueueAccount>()), w(pda_at::<NullifierAccount>(index).0)]);
    ix(ElusivInstruction::ResetActiveMerkleTree { active_mt_index: index }, a)
}

/// The entries of the commitment queue (commitment hash, fee version, batching rate) and the metadata queue
pub fn commitment_queue(world: &World) -> Vec<(B32, u32, u32)> {
    queue_raw::<CommitmentQueueAccount>(world, 40).iter().map(|e| (e[..32].try_into().unwrap(), u32::from_le_bytes(e[32..36].try_into().unwrap()), u32::from_le_bytes(e[36..40].try_into().unwrap()))).collect()
}
pub fn metadata_queue(world: &World) -> Vec<CommitmentMetadata> {
    queue_raw::<MetadataQueueAccount>(world, 17).iter().map(|e| e[..].try_into().unwrap()).collect()
}
/// layout: pda data (2) | head u32 | tail u32 | ring data
fn queue_raw<T: PDAAccount>(world: &World, size: usize) -> Vec<Vec<u8>> {
    let d = world.svm.data(&pda::<T>());
    let head = u32::from_le_bytes(d[2..6].try_into().unwrap()) as usize;
    let tail = u32::from_le_bytes(d[6..10].try_into().unwrap()) as usize;
    let ring = (d.len() - 10) / size;
    let n = (tail + ring - head) % ring;
    (0..n).map(|i| { let j = (head + i) % ring; d[10 + j * size..10 + (j + 1) * size].to_vec() }).collect()
}

#[allow(unused)]
fn _sz() -> usize { <u32 as BorshSerDeSized>::SIZE }
