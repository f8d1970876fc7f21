//! The transactions of complete histories of the program, each with the state before and after it
use elusiv::instruction::ElusivInstruction;
use elusiv::processor::{BaseCommitmentHashRequest, VKeyAccountDataPacket};
use elusiv::proof::vkey::VerifyingKey;

use elusiv::state::governor::{PoolAccount};
use elusiv::state::metadata::MetadataAccount;
use elusiv::state::nullifier::NullifierAccount;
use elusiv::state::proof::VerificationAccount;
use elusiv::state::storage::StorageAccount;
use elusiv::state::vkey::VKeyAccount;
use elusiv::token::TOKENS;
use elusiv::types::RawU256;
use elusiv_types::accounts::*;
use elusiv_types::ElusivOption;
use elusiv::elusiv_computation::PartialComputation;
use crate::groth;
use crate::poseidon::*;
use crate::with_acc;
use crate::proxy;
use crate::send::*;
use crate::tree::*;
use crate::world::*;
use solana_program::instruction::{Instruction};
use solana_program::pubkey::Pubkey;
use solana_program::{system_program};
use std::collections::BTreeMap;
use std::sync::{Arc, OnceLock};
use svm::Account;

pub type Accounts = BTreeMap<Pubkey, Account>;

pub struct Stage {
    pub name: String,
    pub w: World,
    pub ixs: Vec<Instruction>,
    pub signers: Vec<Pubkey>,
    /// (instruction, slot) of accounts that the signers choose
    pub free: Vec<(usize, usize)>,
    pub after: Accounts,
}

pub fn attacker() -> Pubkey { user("attacker") }
pub fn warden() -> Pubkey { user("warden-a") }
pub fn client() -> Pubkey { user("client") }

struct Build { stages: Vec<Stage> }
impl Build {
    /// records the transaction as a stage, and executes it
    fn step(&mut self, w: &mut World, name: &str, ixs: &[Instruction], signers: &[Pubkey], free: &[(usize, usize)]) {
        let before = w.clone();
        if let Err(e) = w.svm.tx(ixs, signers) { panic!("harness: {name}: {e:?}") }
        assert!(changed(&before.svm.accounts, &w.svm.accounts).is_some(), "harness: {name} has no effect");
        self.stages.push(Stage { name: name.into(), w: before, ixs: ixs.to_vec(), signers: signers.to_vec(), free: free.to_vec(), after: w.svm.accounts.clone() });
    }
}

pub fn same(a: &Account, b: &Account) -> bool { a.lamports == b.lamports && a.owner == b.owner && (Arc::ptr_eq(&a.data, &b.data) || a.data == b.data) }
/// an account that differs
pub fn changed(a: &Accounts, b: &Accounts) -> Option<Pubkey> {
    let none = Account::default();
    a.keys().chain(b.keys()).find(|k| !same(a.get(k).unwrap_or(&none), b.get(k).unwrap_or(&none))).copied()
}

fn base_world() -> World {
    let mut w = World::full(fee([5000, 50, 50, 1000, 1000, 300, 300]), &[0, 1, 3, 6, 12], &[0], &[0]);
    for u in [warden(), user("warden-b"), client(), attacker()] { w.fund(&u, 1_000_000 * SOL, 1_000_000_000_000); }
    w.svm.register(proxy::accepting_id(), proxy::accept);
    w.svm.airdrop(&pda::<PoolAccount>(), 1000 * SOL);
    // differing prices, so that a mixed up one has consequences
    for i in 1..TOKENS.len() { w.set_price(i as u16, 1_00000000 + 7_000_000 * i as i64, 100, -8); }
    w
}

/// setup of the program
fn setup_stages(b: &mut Build) {
    let w0 = base_world();
    let mut w = World { svm: Svm::new(&[(elusiv::id(), elusiv::process_instruction)]), payer: w0.payer, storage_children: vec![], nullifier_children: vec![], metadata_children: vec![], fee: clone_fee(&w0.fee) };
    w.svm.register(proxy::accepting_id(), proxy::accept);
    let p = w.payer;
    for u in [p, attacker()] { w.fund(&u, 1000 * SOL, 0); }
    b.step(&mut w, "open accounts", &[open_single_instance(p)], &[p], &[(0, 0)]);
    b.step(&mut w, "create accounts v1", &[create_new_accounts_v1(p)], &[p], &[(0, 0)]);
    b.step(&mut w, "open nullifier account", &[open_nullifier(p, 0)], &[p], &[(0, 0)]);
    b.step(&mut w, "open second nullifier account", &[open_nullifier(p, 1)], &[p], &[(0, 0)]);
    b.step(&mut w, "set up governor", &[setup_governor(p)], &[p], &[(0, 0)]);
    b.step(&mut w, "init fee", &[init_fee(p, 0, clone_fee(&w0.fee))], &[p], &[(0, 0)]);
    let put = |w: &mut World, n: &str, size: usize| { let k = user(n); w.svm.put_exempt(k, elusiv::id(), vec![0; size]); k };
    let k = put(&mut w, "c/s", <<StorageAccount as ParentAccount>::Child as SizedAccount>::SIZE);
    b.step(&mut w, "enable storage child", &[ix(ElusivInstruction::EnableStorageChildAccount { child_index: 2 }, vec![self::w(pda::<StorageAccount>()), self::w(k)])], &[], &[(0, 1)]);
    let k = put(&mut w, "c/n", <<NullifierAccount as ParentAccount>::Child as SizedAccount>::SIZE);
    b.step(&mut w, "enable nullifier child", &[ix(ElusivInstruction::EnableNullifierChildAccount { mt_index: 1, child_index: 1 }, vec![self::w(pda_at::<NullifierAccount>(1).0), self::w(k)])], &[], &[(0, 1)]);
    let k = put(&mut w, "c/m", <<MetadataAccount as ParentAccount>::Child as SizedAccount>::SIZE);
    b.step(&mut w, "enable metadata child", &[ix(ElusivInstruction::EnableMetadataChildAccount { child_index: 3 }, vec![self::w(pda::<MetadataAccount>()), self::w(k)])], &[], &[(0, 1)]);
}

fn vkey_stages(b: &mut Build) {
    let mut w = base_world();
    let (p, vk) = (warden(), pda_at::<VKeyAccount>(0).0);
    let file = |i: usize| user(&format!("vkey-file/{i}"));
    let size = VerifyingKey::source_size(1);
    for i in 0..2 { w.svm.put_exempt(file(i), elusiv::id(), vec![0; size + 1]); }
    let m = self::w;
    b.step(&mut w, "create vkey", &[ix(ElusivInstruction::CreateVkeyAccount { vkey_id: 0, public_inputs_count: 1, deploy_authority: Some(p).into() }, vec![ws(p), m(vk), r(system_program::ID)])], &[p], &[(0, 0)]);
    for v in 0..2 {
        b.step(&mut w, "new vkey version", &[ix(ElusivInstruction::CreateNewVkeyVersion { vkey_id: 0 }, vec![rs(p), m(vk), m(file(v))])], &[p], &[(0, 2)]);
        let mut acc = vec![rs(p), m(vk)];
        if v == 1 { acc.push(m(file(0))); }
        acc.push(m(file(v)));
        b.step(&mut w, "vkey data", &[ix(ElusivInstruction::SetVkeyData { vkey_id: 0, data_position: 0, packet: VKeyAccountDataPacket((0..964.min(size)).map(|i| (i + v) as u8 | 1).collect()) }, acc)], &[p], &[]);
        // (there is no old data account in the beginning)
        b.step(&mut w, "update vkey", &[ix(ElusivInstruction::UpdateVkeyVersion { vkey_id: 0 }, vec![ws(p), m(vk), m(file(0)), r(system_program::ID)])], &[p], if v == 0 { &[(0, 2)] } else { &[] });
    }
    b.step(&mut w, "change vkey authority", &[ix(ElusivInstruction::ChangeVkeyAuthority { vkey_id: 0, authority: client() }, vec![rs(p), m(vk)])], &[p], &[]);
    b.step(&mut w, "freeze vkey", &[ix(ElusivInstruction::FreezeVkey { vkey_id: 0 }, vec![rs(client()), m(vk)])], &[client()], &[]);
}

fn deposit_stages(b: &mut Build) -> (World, Vec<B32>) {
    let mut w = base_world();
    let mut tree = Tree::default();
    let mut roots = vec![];
    for (i, token) in [0u16, 1, 5].into_iter().enumerate() {
        let index = i as u32;
        let t = &TOKENS[token as usize];
        let amount = t.min.max(1_000_000);
        let (base, recent) = (fr_u64(900 + i as u64), 0u32);
        let commitment = hash2(base, fr_from_limbs(&[amount, token as u64 + ((recent as u64) << 16), 0, 0]));
        let request = BaseCommitmentHashRequest { base_commitment: RawU256::new(fr_to_le(&base)), recent_commitment_index: recent, amount, token_id: token, commitment: RawU256::new([0; 32]), fee_version: 0, min_batching_rate: 0 };
        let x = w.store_ix(client(), warden(), index, request, [i as u8 + 1; 17]);
        b.step(&mut w, &format!("store base commitment, token {token}"), &[x], &[client(), warden()], &[(0, 0), (0, 1), (0, 2), (0, 3)]);
        let x = w.compute_base_ix(index);
        for k in 0..elusiv::commitment::BaseCommitmentHashComputation::IX_COUNT {
            if k == 0 { b.step(&mut w, "hash base commitment", &[x.clone()], &[], &[]); } else { w.svm.tx(&[x.clone()], &[]).unwrap(); }
        }
        let x = w.finalize_base_ix(warden(), index, 0);
        b.step(&mut w, &format!("finalize base commitment, token {token}"), &[x], &[], &[]);
        tree.insert(&[commitment]);
        let x = w.setup_hash_ix(false);
        b.step(&mut w, "set up commitment hash", &[x], &[], &[]);
        let x = w.init_hash_ix(false, true);
        b.step(&mut w, "init commitment hash", &[x], &[], &[]);
        let n = elusiv::commitment::commitment_hash_computation_instructions(0).len();
        for k in 0..n {
            let x = w.compute_hash_ix(warden(), 0, k as u32);
            if k == 0 || k == n - 1 { b.step(&mut w, "compute commitment hash", &[x], &[warden()], &[(0, 0)]); } else { w.svm.tx(&[x], &[warden()]).unwrap(); }
        }
        let x = w.finalize_hash_ix();
        b.step(&mut w, "finalize commitment hash", &[x], &[], &[]);
        let raw: B32 = w.svm.data(&child_key("storage", 0, 0))[1..33].try_into().unwrap();
        assert_eq!(raw, fr_to_mr(&tree.node(H, 0)), "harness: root {i}");
        roots.push(fr_to_le(&tree.node(H, 0)));
    }
    // the active tree is replaced
    let mut full = w.clone();
    with_acc!(full, pda::<StorageAccount>(), StorageAccount, |a| a.set_next_commitment_ptr(&(1 << 20)));
    let x = reset_mt(&full, 0);
    b.step(&mut full, "reset tree", &[x], &[], &[]);
    (w, roots)
}

fn send_stages(b: &mut Build, w0: &World, roots: &[B32]) {
    let k = groth::keyed();
    let mut w0 = w0.clone();
    let child = w0.put_vkey(0, 14, Some(k.toxic.source())).unwrap();
    // another warden's verification in every phase
    for (i, (token, kind)) in [(0u16, Recipient::Wallet), (1, Recipient::Ata), (1, Recipient::TokenAccount), (5, Recipient::Ata)].into_iter().enumerate() {
        for variant in 0..2 {
            let mut w = w0.clone();
            let recipient = match kind { Recipient::TokenAccount => { let a = user("token-account"); w.svm.put_token_account(a, TOKENS[token as usize].mint, user("recipient"), 5); a } _ => user("recipient") };
            let opt = acc_of(&user("optional"), token);
            if token == 0 { w.svm.airdrop(&opt, SOL) } else { w.svm.put_token_account(opt, TOKENS[token as usize].mint, user("optional"), 0) }
            let mut v = Send {
                token, amount: 2 * SOL, fee: 0, optional: (opt, if variant == 0 { 1000 } else { 0 }), metadata: [3; 17],
                inputs: vec![(Some(roots[1]), fr_to_le(&fr_u64(100 + i as u64))), (None, fr_to_le(&fr_u64(200 + i as u64)))],
                output: fr_to_le(&fr_u64(300 + i as u64)), recent: 3, kind, recipient, solana_pay: variant == 1,
                memo: if variant == 1 { Some(vec![65, 66]) } else { None }, identifier: user("identifier"), reference: if variant == 0 { Some(user("reference")) } else { None },
                iv: [4; 32], owner: [5; 32], fee_version: 0, ofp: warden(), ofp_account: acc_of(&warden(), token), index: 1, skip_pda: false, trees: [0, 1],
            };
            let f = crate::settle::set_fee(&w, &mut v, 0).unwrap();
            // other verifications: of the same fee payer and of another one
            let mut others = vec![];
            for (j, ofp) in [warden(), user("warden-b"), attacker()].into_iter().enumerate() {
                let mut o = v.clone();
                o.ofp = ofp;
                o.ofp_account = acc_of(&ofp, token);
                o.index = 2 - (j > 0) as u8;
                o.inputs = vec![(Some(roots[0]), fr_to_le(&fr_u64(500 + i as u64 * 10 + j as u64)))];
                o.output = fr_to_le(&fr_u64(700 + j as u64));
                crate::settle::set_fee(&w, &mut o, 0).unwrap();
                let x = o.init_ixs(&w);
                w.svm.tx(&x, &[o.ofp]).expect("harness: another verification");
                others.push(o);
            }
            let n = format!("token {token}, {kind:?}, {}", if variant == 0 { "optional fee" } else { "Solana Pay" });
            let x = v.init_ixs(&w);
            b.step(&mut w, &format!("init verification and transfer fee ({n})"), &x, &[v.ofp], &[(0, 0), (0, 5), (1, 0), (1, 1)]);
            let proof = groth::proof(fr_u64(3), fr_u64(5), fr_u64(7));
            let x = w.init_proof_ix(v.ofp, v.index, proof);
            b.step(&mut w, "set proof", &[x], &[v.ofp], &[]);
            for o in &others { let x = w.init_proof_ix(o.ofp, o.index, proof); w.svm.tx(&[x], &[o.ofp]).expect("harness: proof"); }
            if variant == 0 && i < 2 {
                let x = w.compute_verification_ix(v.ofp, v.index, 0, &[child]);
                for k in 0..40 {
                    // (some steps have no effect alone)
                    let c = vec![x.clone(); 7];
                    if k % 8 == 0 { let mut y = w.clone(); b.step(&mut y, "compute verification", &c, &[], &[]); }
                    w.svm.tx(&c, &[]).expect("harness: computation");
                }
            }
            for o in others.iter().chain([&v]) { with_acc!(w, o.account(), VerificationAccount, |a| a.set_is_verified(&ElusivOption::Some(true))); }
            let mut bad = w.clone();
            let x = v.finalize_ixs(&mut w, &f, true);
            b.step(&mut w, &format!("settle ({n})"), &x, &[v.ofp], &[]);
            with_acc!(bad, v.account(), VerificationAccount, |a| a.set_is_verified(&ElusivOption::Some(false)));
            let x = v.finalize_ixs(&mut bad, &f, false);
            b.step(&mut bad, &format!("settle invalid ({n})"), &x, &[v.ofp], &[]);
        }
    }
}

pub fn stages() -> &'static Vec<Stage> {
    static T: OnceLock<Vec<Stage>> = OnceLock::new();
    T.get_or_init(|| {
        let mut b = Build { stages: vec![] };
        setup_stages(&mut b);
        vkey_stages(&mut b);
        let (w, roots) = deposit_stages(&mut b);
        send_stages(&mut b, &w, &roots);
        b.stages
    })
}

