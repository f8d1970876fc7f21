//! Property P28: the client library builds the very transactions the program expects, and computes the fee the program demands.
use client::poseidon::*;
use client::send::*;
use client::settle::*;
use client::stages::*;
use client::with_parent;
use client::world::*;
use borsh::BorshDeserialize;
use elusiv::instruction::{ElusivInstruction as Ix, SignerAccount, UserAccount, WritableSignerAccount, WritableUserAccount};
use elusiv::processor::{BaseCommitmentHashRequest, FinalizeSendData, VKeyAccountDataPacket};
use elusiv::proof::vkey::SendQuadraVKey;
use elusiv::state::governor::{FeeCollectorAccount, PoolAccount};
use elusiv::state::nullifier::NullifierAccount;
use elusiv::token::TOKENS;
use elusiv::types::*;
use elusiv_types::accounts::PDAAccount;
use pbt::*;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::cell::Cell;

/// The same instruction made by the client's builder, which is given the data and the accounts the program does not determine
fn rebuild(i: &Instruction) -> Instruction {
    let ix = Ix::try_from_slice(&i.data).expect("harness: data");
    let k = |n: usize| i.accounts[n].pubkey;
    let n = i.accounts.len();
    let ua = |n: usize| UserAccount(k(n));
    let wa = |n: usize| WritableUserAccount(k(n));
    let sa = |n: usize| SignerAccount(k(n));
    let wsa = |n: usize| WritableSignerAccount(k(n));
    let us = |a: usize, b: usize| (a..b).map(|n| UserAccount(k(n))).collect::<Vec<_>>();
    let wus = |a: usize, b: usize| (a..b).map(|n| WritableUserAccount(k(n))).collect::<Vec<_>>();
    match ix {
        Ix::StoreBaseCommitment { hash_account_index, hash_account_bump, request, metadata } =>
            Ix::store_base_commitment_instruction(hash_account_index, hash_account_bump, request, metadata, sa(0), wa(1), wsa(2), wa(3), wa(5), wa(7), ua(8), ua(9), ua(14)),
        Ix::ComputeBaseCommitmentHash { hash_account_index } => Ix::compute_base_commitment_hash_instruction(hash_account_index),
        Ix::FinalizeBaseCommitmentHash { hash_account_index, fee_version } => Ix::finalize_base_commitment_hash_instruction(hash_account_index, fee_version, wa(0)),
        Ix::InitCommitmentHashSetup { insertion_can_fail } => Ix::init_commitment_hash_setup_instruction(insertion_can_fail, &us(2, n)),
        Ix::InitCommitmentHash { insertion_can_fail } => Ix::init_commitment_hash_instruction(insertion_can_fail, &wus(4, n)),
        Ix::ComputeCommitmentHash { fee_version, nonce } => Ix::compute_commitment_hash_instruction(fee_version, nonce, wsa(0)),
        Ix::FinalizeCommitmentHash => Ix::finalize_commitment_hash_instruction(&wus(2, n)),
        Ix::InitVerification { verification_account_index, vkey_id, tree_indices, request, skip_nullifier_pda } => {
            let second = pda_at::<NullifierAccount>(tree_indices[1]).0;
            let m = (9..n).find(|&j| k(j) == second).expect("harness: second nullifier account");
            Ix::init_verification_instruction(verification_account_index, vkey_id, tree_indices, request, skip_nullifier_pda, wsa(0), wa(3), ua(5), &us(9, m), &us(m + 1, n))
        }
        Ix::InitVerificationTransferFee { verification_account_index } => Ix::init_verification_transfer_fee_instruction(verification_account_index, wsa(0), wa(1), wa(3), wa(5), ua(6), ua(7), ua(10)),
        Ix::InitVerificationProof { verification_account_index, proof } => Ix::init_verification_proof_instruction(verification_account_index, proof, sa(0)),
        Ix::ComputeVerification { verification_account_index, vkey_id } => Ix::compute_verification_instruction(verification_account_index, vkey_id, ua(0), &us(3, n - 1)),
        Ix::FinalizeVerificationSend { verification_account_index, data, uses_memo } => Ix::finalize_verification_send_instruction(verification_account_index, data, uses_memo, ua(0), ua(1), ua(2), ua(3)),
        Ix::FinalizeVerificationInsertNullifier { verification_account_index } => {
            let tree = (0..4).find(|t| pda_at::<NullifierAccount>(*t).0 == k(2)).expect("harness: nullifier account");
            Ix::finalize_verification_insert_nullifier_instruction(verification_account_index, ua(0), Some(tree), &wus(3, n))
        }
        Ix::FinalizeVerificationTransferLamports { verification_account_index } => Ix::finalize_verification_transfer_lamports_instruction(verification_account_index, wsa(0), wa(1), wa(4), wa(8)),
        Ix::FinalizeVerificationTransferToken { verification_account_index } =>
            Ix::finalize_verification_transfer_token_instruction(verification_account_index, wsa(0), wa(1), wa(2), ua(3), wa(5), wa(7), wa(8), wa(12), ua(16)),
        Ix::CreateVkeyAccount { vkey_id, public_inputs_count, deploy_authority } => Ix::create_vkey_account_instruction(vkey_id, public_inputs_count, deploy_authority, wsa(0)),
        Ix::CreateNewVkeyVersion { vkey_id } => Ix::create_new_vkey_version_instruction(vkey_id, sa(0), wa(2)),
        Ix::UpdateVkeyVersion { vkey_id } => Ix::update_vkey_version_instruction(vkey_id, wsa(0), wa(2)),
        Ix::SetVkeyData { vkey_id, data_position, packet } => Ix::set_vkey_data_instruction(vkey_id, data_position, packet, sa(0), &wus(2, n)),
        Ix::FreezeVkey { vkey_id } => Ix::freeze_vkey_instruction(vkey_id, sa(0)),
        Ix::ChangeVkeyAuthority { vkey_id, authority } => Ix::change_vkey_authority_instruction(vkey_id, authority, sa(0)),
        Ix::ResetActiveMerkleTree { active_mt_index } => Ix::reset_active_merkle_tree_instruction(active_mt_index, &wus(1, n - 2)),
        Ix::OpenSingleInstanceAccounts => Ix::open_single_instance_accounts_instruction(wsa(0)),
        Ix::OpenNullifierAccount { mt_index } => Ix::open_nullifier_account_instruction(mt_index, wsa(0)),
        Ix::EnableStorageChildAccount { child_index } => Ix::enable_storage_child_account_instruction(child_index, wa(1)),
        Ix::EnableNullifierChildAccount { mt_index, child_index } => Ix::enable_nullifier_child_account_instruction(mt_index, child_index, wa(1)),
        Ix::EnableMetadataChildAccount { child_index } => Ix::enable_metadata_child_account_instruction(child_index, wa(1)),
        Ix::SetupGovernorAccount => Ix::setup_governor_account_instruction(wsa(0)),
        Ix::InitNewFeeVersion { fee_version, program_fee } => Ix::init_new_fee_version_instruction(fee_version, program_fee, wsa(0)),
        Ix::CreateNewAccountsV1 => Ix::create_new_accounts_v1_instruction(wsa(0)),
        _ => panic!("harness: not part of the histories"),
    }
}

/// `token` of the shortcuts for lamports and for tokens, if there is one for the instruction
fn shortcut(i: &Instruction, s: &mut Src) -> Option<Instruction> {
    let k = |n: usize| i.accounts[n].pubkey;
    match Ix::try_from_slice(&i.data).ok()? {
        Ix::StoreBaseCommitment { hash_account_index, request, metadata, .. } if request.token_id == 0 && k(0) == k(1) && k(2) == k(3) =>
            Some(Ix::store_base_commitment_sol_instruction(hash_account_index, request, metadata, k(0), k(2))),
        Ix::InitVerificationTransferFee { verification_account_index } => {
            let pool = k(2);
            if k(3) == pool {
                if s.bool() { s.label("lamports"); Some(Ix::init_verification_transfer_fee_sol_instruction(verification_account_index, k(0))) } else { None }
            } else {
                let token = (1..TOKENS.len() as u16).find(|t| ata(&pool, *t) == k(3))?;
                Some(Ix::init_verification_transfer_fee_token_instruction(verification_account_index, token, k(0), k(1), k(3), k(5)))
            }
        }
        _ => None,
    }
}

/// keys in order, and who has to sign
fn shape(i: &Instruction) -> Vec<(Pubkey, bool)> { i.accounts.iter().map(|a| (a.pubkey, a.is_signer)).collect() }
fn compare(a: &Instruction, b: &Instruction, name: &str) -> Res {
    check_eq!(a.program_id, b.program_id, "program", "{name}: program");
    check!(a.data == b.data, "data", "{name}: data {:?} instead of {:?}", a.data, b.data);
    let (x, y) = (shape(a), shape(b));
    check_eq!(x.len(), y.len(), "accounts", "{name}: number of accounts");
    for (j, (x, y)) in x.iter().zip(&y).enumerate() { check!(x == y, "accounts", "{name}: account {j} (key, signer) is {x:?} instead of {y:?}"); }
    Ok(())
}

/// The transactions of complete histories have the same effect when they are made by the client's builders
fn histories(s: &mut Src) -> Res {
    let st = &stages()[s.below(stages().len())];
    let mut w = st.w.clone();
    let mut ixs = st.ixs.clone();
    let mut changed_any = false;
    for i in ixs.iter_mut() {
        if i.program_id != elusiv::id() || s.chance(1, 4) { continue }
        changed_any = true;
        if let Some(x) = shortcut(i, s) {
            s.label("shortcut");
            // (only lamport transfers are made without token program and price accounts)
            *i = x;
            continue
        }
        let Ok(x) = guard(|| rebuild(i)) else { return fail("build", format!("{}: the builder panics", st.name)) };
        compare(&x, i, &st.name)?;
        *i = x;
    }
    if changed_any { let h = s.choices_hash(); s.nontrivial(h); }
    let r = w.svm.tx(&ixs, &st.signers);
    check!(r.is_ok(), "refused", "{}: refused when built by the client: {r:?}", st.name);
    if let Some(k) = changed(&st.after, &w.svm.accounts) { return fail("effect", format!("{}: {k} differs when built by the client", st.name)) }
    Ok(())
}

/// Any arguments end up in the data and at their places
fn arguments(s: &mut Src) -> Res {
    let mut w = World { svm: Svm::new(&[]), payer: user("payer"), storage_children: vec![], nullifier_children: vec![], metadata_children: vec![], fee: fee([0; 7]) };
    let sub = |s: &mut Src, n: usize| (0..n).filter(|_| s.chance(1, 3)).collect::<Vec<_>>();
    w.storage_children = sub(s, 25);
    w.nullifier_children = sub(s, 16);
    w.metadata_children = sub(s, 16);
    let who = |s: &mut Src| user(&format!("any/{}", s.below(4)));
    let idx8 = |s: &mut Src| s.pick(&[0u8, 1, 7, 128, 255]);
    let idx = |s: &mut Src| s.pick(&[0u32, 1, 2, 3, 255, 256, 0x1_0000, u32::MAX]);
    let tree = |s: &mut Src| s.below(4) as u32;
    let token = s.below(TOKENS.len()) as u16;
    let (a, b, c) = (who(s), who(s), who(s));
    let which = s.below(15);
    let i = match which {
        0 => { let q = client::base_request(s); let q = BaseCommitmentHashRequest { token_id: q.token_id % TOKENS.len() as u16, ..q }; let m = s.bytes(); let n = idx(s); w.store_ix(a, b, n, q, m) }
        1 => { let n = idx(s); w.compute_base_ix(n) }
        2 => { let (n, v) = (idx(s), idx(s)); w.finalize_base_ix(a, n, v) }
        3 => { let f = s.bool(); w.setup_hash_ix(f) }
        4 => { let (f, c) = (s.bool(), s.bool()); w.init_hash_ix(f, c) }
        5 => { let (v, n) = (idx(s), idx(s)); w.compute_hash_ix(a, v, n) }
        6 => w.finalize_hash_ix(),
        7 => { let t = [tree(s), tree(s)]; if t[0] == t[1] && !w.nullifier_children.is_empty() { return Ok(()) } let (n, v, q, sk) = (idx8(s), idx(s), client::request(s), s.bool()); w.init_verification_ix(a, n, v, t, q, b, c, sk) }
        8 => { let n = idx8(s); w.transfer_fee_ix(a, b, n, token) }
        9 => { let n = idx8(s); w.init_proof_ix(a, n, client::groth::proof(fr_u64(s.u64()), fr_u64(5), fr_u64(s.u64() | 1))) }
        10 => { let (n, v) = (idx8(s), idx(s)); let ch: Vec<Pubkey> = (0..s.below(3)).map(|j| user(&format!("vk/{j}"))).collect(); w.compute_verification_ix(a, n, v, &ch) }
        11 => {
            let d = FinalizeSendData { total_amount: s.u64_edge(), token_id: s.u64() as u16, mt_index: s.u64() as u32, commitment_index: s.u64() as u32, iv: s.bytes(), encrypted_owner: s.bytes() };
            let (n, m, r) = (idx8(s), s.bool(), who(s));
            w.finalize_send_ix(a, b, c, r, n, d, m)
        }
        12 => { let (n, t) = (idx8(s), tree(s)); w.insert_nullifier_ix(a, n, t) }
        13 => { let (n, d) = (idx8(s), who(s)); w.transfer_lamports_ix(a, b, c, n, d) }
        _ => { let (n, d, e, t) = (idx8(s), who(s), who(s), 1 + s.below(TOKENS.len() - 1) as u16); w.transfer_token_ix(a, b, c, e, who(s), t, n, d) }
    };
    let h = fnv(&i.data) ^ fnv(&i.accounts.iter().flat_map(|a| a.pubkey.to_bytes()).collect::<Vec<_>>());
    s.nontrivial(h);
    s.log(|| format!("instruction {which}, {} accounts", i.accounts.len()));
    let Ok(x) = guard(|| rebuild(&i)) else { return fail("build", format!("the builder of instruction {which} panics")) };
    compare(&x, &i, &format!("instruction {which}"))?;
    let _ = (VKeyAccountDataPacket(vec![]), pda::<FeeCollectorAccount>());
    Ok(())
}

/// public inputs that refuse to be changed forever
struct Bounded<'a>(&'a mut SendPublicInputs, Cell<u32>);
impl<'a> PublicInputs for Bounded<'a> {
    const PUBLIC_INPUTS_COUNT: usize = SendPublicInputs::PUBLIC_INPUTS_COUNT;
    fn verify_additional_constraints(&self) -> bool { self.0.verify_additional_constraints() }
    fn join_split_inputs(&self) -> &JoinSplitPublicInputs { self.0.join_split_inputs() }
    fn public_signals(&self) -> Vec<RawU256> { self.0.public_signals() }
    fn set_fee(&mut self, fee: u64) { self.1.set(self.1.get() + 1); if self.1.get() > 1000 { panic!("the fee is changed forever") } self.0.set_fee(fee) }
}

/// The fee computed by the client is accepted by the program, and no smaller one is
fn client_fee(s: &mut Src) -> Res {
    let t = template();
    let mut w = t.w.clone();
    let nullifier = fr_to_le(&fr_u64(s.u64()));
    let mut v = gen_send(s, &mut w, 0, &[nullifier], t);
    v.inputs.truncate(1);
    v.kind = match v.kind { Recipient::Ata => Recipient::TokenAccount, k => k };
    v.solana_pay = false;
    v.fee = match s.below(4) { 0 => s.u64_edge() >> 2, 1 => s.range(0, 1 << 24), _ => 0 };
    // amounts whose sum with the fee is next to a number with other zero bytes
    if s.bool() {
        let Some(f) = fees(&w, &v, 0) else { return Ok(()) };
        let m = (s.range(1, 1 << 16)) << (8 * s.range(1, 3));
        if m > f.min_fee() { v.amount = m - f.min_fee() + s.range(0, 12_000); }
    }
    let price = token_price(&w, v.token);
    let mut p = v.public_inputs();
    // the smallest fixpoint, if there is one
    let required = |v: &mut Send, fee: u64| { v.fee = fee; fees(&w, v, 0).map(|f| f.min_fee()) };
    if required(&mut v, 0).is_none() { s.label("no price"); return Ok(()) }
    let h = s.choices_hash();
    s.nontrivial(h);
    // (the fee is a public input itself, and determines the number of transactions by its zero bytes)
    let mut seq = vec![0];
    let converges = loop { let cur = *seq.last().unwrap(); let Some(n) = required(&mut v, cur) else { return Ok(()) }; if n == cur { break true } if seq.contains(&n) { break false } seq.push(n); };
    if !converges { s.label("no fixpoint reached by iteration"); }
    let r = { let mut b = Bounded(&mut p, Cell::new(0)); guard(|| compute_fee_rec::<SendQuadraVKey, _>(&mut b, &w.fee, &price)) };
    check!(r.is_ok(), "fee-forever", "the computation of the fee does not end ({seq:?}): {r:?}");
    let fee = p.join_split.fee;
    let n = required(&mut v, fee).unwrap();
    check!(fee >= n, "fee-low", "the fee {fee} is below the required {n}");
    if converges { check_eq!(fee, n, "fee", "fee (candidates {seq:?})"); }
    Ok(())
}

/// The client reads the metadata that the program stored, at every index, and nothing else
fn metadata(s: &mut Src) -> Res {
    use elusiv::state::metadata::{CommitmentMetadata, MetadataAccount};
    const PER: usize = 1 << 16;
    let present: Vec<usize> = if s.bool() { vec![s.below(16)] } else { let c = s.below(15); vec![c, c + 1] };
    let mut p = client::acct::parent_for::<MetadataAccount>(&present);
    let start = match s.below(4) { 0 => present[0] * PER, 1 => (present[0] * PER + PER).saturating_sub(s.usize(1, 5)), 2 => present[0] * PER + s.below(PER), _ => (present[0] * PER).saturating_sub(s.usize(0, 3)) };
    with_parent!(p, MetadataAccount, |a| { a.set_next_metadata_ptr(&(start as u32)); });
    let mut model: Vec<(usize, CommitmentMetadata)> = vec![];
    let mut next = start;
    for _ in 0..s.usize(1, 12) {
        let m: CommitmentMetadata = s.bytes();
        if next >= 16 * PER { break }
        let r = guard(|| with_parent!(p, MetadataAccount, |a| a.add_commitment_metadata(&m).is_ok()));
        check_eq!(r, Ok(present.contains(&(next / PER))), "add", "metadata {next} with the child accounts {present:?} is stored");
        if r == Ok(true) { model.push((next, m)); next += 1; } else { break }
    }
    check_eq!(with_parent!(p, MetadataAccount, |a| a.get_next_metadata_ptr()) as usize, next, "ptr", "number of metadata");
    for (i, m) in &model {
        let r = guard(|| with_parent!(p, MetadataAccount, |a| a.get_commitment_metadata(*i).ok()));
        check_eq!(r, Ok(Some(*m)), "metadata", "metadata {i}");
    }
    for i in [next, next + 1, 16 * PER - 1] {
        if i < next { continue }
        check_eq!(guard(|| with_parent!(p, MetadataAccount, |a| a.get_commitment_metadata(i).ok())), Ok(None), "metadata-none", "metadata {i} of {next}");
    }
    if model.iter().any(|(i, _)| i / PER != start / PER) { s.label("across child accounts"); }
    let h = s.choices_hash();
    s.nontrivial(h);
    Ok(())
}

/// The client reads a verifying key, and prepares the public inputs, as the program does
fn preparation(s: &mut Src) -> Res {
    use elusiv::proof::{verifier::precomputed_input_preparation, vkey::VerifyingKey};
    static KEYS: std::sync::OnceLock<Vec<(client::groth::Toxic, Vec<u8>)>> = std::sync::OnceLock::new();
    let keys = KEYS.get_or_init(|| (1..=3).map(|n| { let t = client::groth::Toxic::fixed(n as u64, n); let b = t.source(); (t, b) }).collect());
    let (t, source) = s.choose(keys);
    let v = VerifyingKey::new(source, t.n()).unwrap();
    let x: Vec<B32> = (0..t.n()).map(|_| match s.below(4) { 0 => [0; 32], 1 => { let mut b = [0; 32]; b[s.below(32)] = s.u8() & 0x1f; b } _ => gen_field(s) }).collect();
    check_eq!(precomputed_input_preparation(&v, &x), Some(client::groth::g1(t.prepared(&x))), "preparation", "prepared inputs {x:?}");
    check!(precomputed_input_preparation(&v, &x[1..]).is_none(), "count", "too few public inputs");
    check!(v.alpha() == client::groth::g1(t.alpha) && v.beta() == client::groth::g2(t.beta) && v.gamma() == client::groth::g2(t.gamma) && v.delta() == client::groth::g2(t.delta), "vkey", "components of the verifying key");
    s.nontrivial(fnv(&x.concat()));
    Ok(())
}

const N: usize = elusiv::state::nullifier::NULLIFIERS_PER_ACCOUNT;
/// key of rank `i` in child account `c`
fn ranked(c: usize, i: usize, off: u64) -> B32 {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&off.to_le_bytes());
    b[24..].copy_from_slice(&((((c * N + i) as u64) + 2) << 20).to_le_bytes());
    b
}
/// a child account with the lowest `n` keys (at most 8 are missing)
fn filled(c: usize, n: usize) -> Vec<u8> {
    use elusiv::state::nullifier::NullifierMap;
    static FULL: std::sync::OnceLock<Vec<Vec<Vec<u8>>>> = std::sync::OnceLock::new();
    let t = FULL.get_or_init(|| (0..2).map(|c| {
        let mut data = vec![0u8; <<NullifierAccount as elusiv_types::accounts::ParentAccount>::Child as elusiv_types::accounts::SizedAccount>::SIZE];
        data[0] = 1;
        let mut out = vec![];
        for i in 0..=N {
            if N - i <= 8 { out.push(data.clone()); }
            if i < N { assert!(NullifierMap::new(&mut data[1..]).try_insert_default(OrdU256(ranked(c, i, 0))).is_ok()); }
        }
        out
    }).collect());
    t[c][n - (N - 8)].clone()
}

/// The client foretells how many insertion instructions are needed on top of one per nullifier hash (too few and too many fail)
fn movements(s: &mut Src) -> Res {
    let full = s.below(3);
    let mut p = client::acct::parent_for::<NullifierAccount>(&[0, 1, 2, 3]);
    let mut fill = vec![N; full];
    if full < 2 { fill.push(N - s.usize(0, 6)); }
    let count: usize = fill.iter().sum();
    for (c, n) in fill.iter().enumerate() { p.children[c] = Some(filled(c, *n)); }
    with_parent!(p, NullifierAccount, |a| {
        a.set_nullifier_hash_count(&(count as u32));
        for (c, n) in fill.iter().enumerate() { a.set_max_values(c, &elusiv_types::ElusivOption::Some(ranked(c, *n - 1, 0))); }
    });
    let n = s.usize(1, 4);
    let mut keys: Vec<B32> = vec![];
    while keys.len() < n {
        let c = s.below(fill.len());
        let rank = match s.below(6) { 0 => 0, 1 => fill[c] - 1, 2 => fill[c] - 1 - s.below(6), 3 => N + 5, _ => s.below(fill[c]) };
        let k = ranked(c, rank, s.range(1, 200));
        if !keys.contains(&k) { keys.push(k); }
    }
    let got = with_parent!(p, NullifierAccount, |a| a.number_of_movement_instructions(&keys));
    let mut want = 0;
    for k in &keys {
        let r = with_parent!(p, NullifierAccount, |a| a.try_insert_nullifier_hash(*k));
        check!(r.is_ok(), "insertion", "a fresh nullifier hash is rejected: {r:?}");
    }
    while !with_parent!(p, NullifierAccount, |a| a.is_moved_nullifier_empty()) {
        want += 1;
        check!(want < 20 && with_parent!(p, NullifierAccount, |a| a.move_nullifier_hashes_to_next_account()).is_ok(), "move", "the values cannot be moved");
    }
    let at: Vec<_> = keys.iter().map(|k| { let r = (u64::from_le_bytes(k[24..].try_into().unwrap()) >> 20) as usize - 2; (r / N, r % N) }).collect();
    s.log(|| format!("{fill:?} and {at:?}: {got} foretold, {want} needed"));
    check!(got == want, "movements", "{n} nullifier hashes above the ones at (child, rank) {at:?} of children with {fill:?}: {got} additional instructions foretold, {want} are needed");
    if want > 0 { let h = s.choices_hash(); s.nontrivial(h); s.label(format!("{want} movements")); }
    Ok(())
}

fn main() {
    kat();
    let n = stages().len();
    println!("[P28] {n} transactions of complete histories");
    let _ = (pda::<PoolAccount>(), <PoolAccount as PDAAccount>::SEED);
    Suite::new("P28", "transactions with at least one instruction made by a builder; instructions with arguments; fees of sends")
        .assume("the addresses of the program's own accounts are as in P21")
        .test("histories", 4_000, 100_000, histories)
        .test("arguments", 60_000, 2_000_000, arguments)
        .test("metadata", 20_000, 400_000, metadata)
        .test("preparation", 4_000, 100_000, preparation)
        .test("movements", 3_000, 60_000, movements)
        .test("fee", 400_000, 2_000_000, client_fee)
        .main()
}
