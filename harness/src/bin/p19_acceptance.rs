//! Property P19: a store or send request is accepted if and only if it satisfies the protocol's conditions.
//! Oracle: the conditions, written down independently; a violated condition must lead to rejection, a request which satisfies
//! all of them must be accepted.
use elusiv::buffer::RingBuffer;
use elusiv::processor::{BaseCommitmentHashRequest, ProofRequest};
use elusiv::state::commitment::*;
use elusiv::state::nullifier::NullifierAccount;
use elusiv::state::proof::VerificationAccount;
use elusiv::state::storage::StorageAccount;
use elusiv::token::TOKENS;
use elusiv::types::{InputCommitment, JoinSplitPublicInputs, MigratePublicInputs, OptionalFee, RawU256};
use harness::poseidon::*;
use harness::prelude::*;
use harness::send::*;
use harness::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;
use std::sync::OnceLock;

const WARDEN: &str = "warden-a";
/// the scalar field's modulus (little endian)
const R: [u64; 4] = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];

fn limbs(v: &B32) -> [u64; 4] { let mut l = [0; 4]; for i in 0..4 { l[i] = u64::from_le_bytes(v[i * 8..i * 8 + 8].try_into().unwrap()); } l }
fn bytes(l: [u64; 4]) -> B32 { let mut b = [0; 32]; for i in 0..4 { b[i * 8..i * 8 + 8].copy_from_slice(&l[i].to_le_bytes()); } b }
fn canonical(v: &B32) -> bool { let l = limbs(v); for i in (0..4).rev() { if l[i] != R[i] { return l[i] < R[i] } } false }
/// another representative of the same field element (v + k * r), if there is one
fn alias(v: &B32, k: u64) -> B32 {
    let mut a = limbs(v);
    for _ in 0..k {
        let mut c = 0u128;
        let mut b = a;
        for i in 0..4 { let s = a[i] as u128 + R[i] as u128 + c; b[i] = s as u64; c = s >> 64; }
        if c != 0 { break }
        a = b;
    }
    bytes(a)
}
fn mr(v: &B32) -> B32 { fr_to_mr(&fr_from_le(v)) }
/// a field element, from canonical to barely not canonical
fn element(s: &mut Src) -> B32 {
    match s.below(8) {
        0 => fr_to_le(&fr_u64(s.below(3) as u64)),
        1 => { let mut l = R; l[0] -= 1 + s.below(2) as u64; bytes(l) }
        _ => gen_field(s),
    }
}
fn odd(s: &mut Src, v: &B32) -> B32 {
    match s.below(5) { 0 => bytes(R), 1 => [255; 32], 2 => { let mut l = R; l[0] += 1; bytes(l) } 3 => alias(v, 2), _ => alias(v, 1) }
}

fn template() -> &'static World {
    static T: OnceLock<World> = OnceLock::new();
    T.get_or_init(|| {
        let mut w = World::bare(fee([5000, 50, 50, 1000, 1000, 300, 300]));
        w.fund(&user(WARDEN), 1_000_000 * SOL, 1_000_000_000_000);
        w.fund(&user("sender"), 1_000_000 * SOL, 1_000_000_000_000_000);
        for t in 0..2 { w.enable_nullifier_child(t, 0); }
        w.put_vkey(0, 14, None);
        w.put_vkey(1, 7, None);
        let payer = w.payer;
        w.svm.tx(&[open_nullifier(payer, 2)], &[payer]).unwrap();
        w.enable_nullifier_child(2, 0);
        w
    })
}

fn zero_commitment(inner: bool) -> B32 {
    let z = hash2(fr_u64(0), fr_u64(0));
    fr_to_le(&if inner { z } else { hash2(z, fr_u64(0)) })
}

/// storage account in an arbitrary state
struct Chain { ptr: u32, trees: u32, roots: Vec<B32>, closed: [Option<B32>; 3] }

fn gen_chain(s: &mut Src, w: &mut World) -> Chain {
    let ptr = match s.below(6) { 0 => s.below(4) as u32, 1 => 125 + s.below(8) as u32, 2 => 1 << 20, 3 => (1 << 20) - 1 - s.below(130) as u32, _ => s.below(1 << 20) as u32 };
    let trees = s.below(3) as u32;
    let n = match s.below(3) { 0 => s.below(3), 1 => 98 + s.below(4), _ => s.below(250) };
    let roots: Vec<B32> = (0..n).map(|i| { let mut h = solana_program::hash::hash(&[i as u8, s.below(4) as u8]).to_bytes(); h[31] &= 0x1f; h }).collect();
    with_acc!(w, pda::<StorageAccount>(), StorageAccount, |a| {
        a.set_next_commitment_ptr(&ptr);
        a.set_trees_count(&trees);
        a.set_mt_roots_count(&(n as u32));
        for (i, r) in roots.iter().enumerate() { a.set_active_mt_root_history(i % 100, &mr(r)); }
    });
    let mut closed = [None; 3];
    for t in 0..3u32 {
        if t < trees {
            let r = element(s);
            closed[t as usize] = Some(r);
            with_acc!(w, pda_at::<NullifierAccount>(t).0, NullifierAccount, |a| a.set_root(&mr(&r)));
        }
    }
    Chain { ptr, trees, roots, closed }
}

fn window(c: &Chain, idx: u32) -> bool { idx <= c.ptr && c.ptr - idx < 128 }
fn gen_recent(s: &mut Src, c: &Chain, wild: bool) -> u32 {
    if wild {
        match s.below(6) { 0 => c.ptr.wrapping_add(1), 1 => c.ptr.wrapping_sub(128), 2 => c.ptr.wrapping_sub(127), 3 => c.ptr, 4 => s.u64_edge() as u32, _ => c.ptr.wrapping_add(s.below(300) as u32).wrapping_sub(150) }
    } else { c.ptr - s.below(128.min(c.ptr as usize + 1)) as u32 }
}

fn send(s: &mut Src) -> Res {
    let mut w = template().clone();
    let c = gen_chain(s, &mut w);
    // -- state: spent nullifiers, recent commitments --
    let pool: Vec<B32> = (0..5).map(|_| element(s)).collect();
    let mut spent = BTreeSet::new();
    for t in 0..3u32 {
        for n in &pool {
            if s.chance(1, 8) && spent.insert((t, *n)) {
                let (pk, ck) = (pda_at::<NullifierAccount>(t).0, child_key("nullifier", t, 0));
                let mut p = acct::Parent { data: w.svm.data(&pk).to_vec(), children: vec![None; 16] };
                p.children[0] = Some(w.svm.data(&ck).to_vec());
                with_parent!(p, NullifierAccount, |a| a.try_insert_nullifier_hash(mr(n)).unwrap());
                *w.svm.data_mut(&pk) = p.data;
                *w.svm.data_mut(&ck) = p.children[0].take().unwrap();
            }
        }
    }
    let outputs: Vec<B32> = (0..3).map(|_| element(s)).collect();
    let mut buffer: Vec<B32> = vec![];
    if s.bool() {
        let n = match s.below(3) { 0 => 127 + s.below(4), _ => s.below(6) };
        for i in 0..n {
            let v = if s.chance(1, 20) { s.pick(&outputs) } else { fr_to_le(&fr_u64(1 << 40 | i as u64)) };
            if !buffer[buffer.len().saturating_sub(128)..].contains(&v) { buffer.push(v); }
        }
    }
    if !buffer.is_empty() { with_acc!(w, pda::<CommitmentBufferAccount>(), CommitmentBufferAccount, |a| for v in &buffer { assert!(a.try_insert(&mr(v)).is_ok()); }); }

    // -- a request which is close to an acceptable one --
    let wild = |s: &mut Src| s.chance(1, 10);
    let mut trees = if wild(s) { [s.below(3) as u32, s.below(3) as u32] } else if s.bool() || c.trees == 0 { [c.trees, (c.trees + 1) % 3] } else { let o = s.below(c.trees as usize) as u32; if s.bool() { [c.trees, o] } else { [o, c.trees] } };
    if c.trees == 2 && s.chance(1, 4) { trees = [0, 1]; if s.bool() { trees.swap(0, 1); } }
    let root_of = |s: &mut Src, t: u32| -> B32 {
        let last = c.roots.len();
        match s.below(24) {
            0 => gen_field(s),
            1 => [0; 32],
            2 if last > 100 => c.roots[s.below(last - 100)],
            3 if last > 0 => c.roots[s.below(last)],
            4 => c.closed[s.below(3)].unwrap_or([0; 32]),
            5 => { let v = if t < c.trees { c.closed[t as usize].unwrap() } else if last > 0 { c.roots[last - 1] } else { [1; 32] }; odd(s, &v) }
            _ if t == c.trees => if last > 0 { c.roots[last - 1 - s.below(last.min(100))] } else { [0; 32] },
            _ => c.closed.get(t as usize).copied().flatten().unwrap_or([0; 32]),
        }
    };
    let n = if wild(s) { s.below(7) } else { s.usize(1, 4) };
    let order = s.permutation(pool.len());
    let mut inputs: Vec<(Option<B32>, B32)> = vec![];
    for k in 0..n {
        let root = if k == 0 && !s.chance(1, 24) { Some(root_of(s, trees[0])) } else if s.chance(1, 3) && (inputs.len() < 2 || s.chance(1, 8)) { Some(root_of(s, trees[1])) } else { None };
        let nh = pool[order[if s.chance(1, 8) { s.below(pool.len()) } else { k % pool.len() }]];
        let nh = if s.chance(1, 24) { odd(s, &nh) } else { nh };
        inputs.push((root, nh));
    }
    let output = match s.below(14) { 0 => zero_commitment(false), 1 => zero_commitment(true), 2 => { let v = s.pick(&outputs); odd(s, &v) } 3 => odd(s, &zero_commitment(false)), 4 if !buffer.is_empty() => buffer[s.below(buffer.len())], _ => s.pick(&outputs) };
    let recent = { let x = wild(s); gen_recent(s, &c, x) };
    let amount = if s.chance(1, 5) { s.u64_edge() } else { s.range(0, 3 * SOL) };
    let fee_ = match s.below(6) { 0 => s.u64_edge(), 1 => u64::MAX - amount, 2 => (u64::MAX - amount).wrapping_add(1), _ => s.below(5_000_000) as u64 };
    let opt = match s.below(6) { 0 => amount, 1 => amount.wrapping_add(1), 2 => s.u64_edge(), _ => amount / 3 };
    let index = if wild(s) { s.pick(&[127u8, 128, 129, 255, 200]) } else { s.below(3) as u8 };
    let migrate = s.chance(1, 25);
    let vkey_id = if s.chance(1, 20) { 1 } else if migrate { 1 } else { 0 };
    let js = JoinSplitPublicInputs {
        input_commitments: inputs.iter().map(|(r, n)| InputCommitment { root: r.map(RawU256::new), nullifier_hash: RawU256::new(*n) }).collect(),
        output_commitment: RawU256::new(output), recent_commitment_index: recent, fee_version: s.below(3) as u32, amount, fee: fee_,
        optional_fee: OptionalFee { collector: user("optional"), amount: opt }, token_id: s.below(5) as u16, metadata: s.bytes::<17>(),
    };
    let duplicate = js.nullifier_duplicate_pda().0;
    let request = if migrate && !inputs.is_empty() && inputs[0].0.is_some() { ProofRequest::Migrate(MigratePublicInputs { join_split: js, current_nsmt_root: RawU256::new([0; 32]), next_nsmt_root: RawU256::new([0; 32]) }) } else {
        ProofRequest::Send(elusiv::types::SendPublicInputs { join_split: js, recipient_is_associated_token_account: s.bool(), solana_pay_transfer: s.bool(), hashed_inputs: gen_field(s) })
    };
    let is_send = matches!(request, ProofRequest::Send(_));
    // -- accounts --
    let fp = user(WARDEN);
    let vk_ready = !s.chance(1, 20);
    if !vk_ready {
        with_acc!(w, pda_at::<elusiv::state::vkey::VKeyAccount>(vkey_id).0, VKeyAccount_, |a| a.set_version(&0));
    }
    let other_running = s.chance(1, 12);
    let same_running = s.chance(1, 20);
    let skip = s.chance(1, 6);
    use elusiv::state::vkey::VKeyAccount as VKeyAccount_;
    // a running verification of the same nullifiers / at the same index
    if other_running { w.svm.put_exempt(duplicate, elusiv::id(), { let mut d = vec![0u8; <elusiv::state::proof::NullifierDuplicateAccount as elusiv_types::accounts::SizedAccount>::SIZE]; d[0] = pda_bump(&request); d }); }
    let va = pda_of::<VerificationAccount>(fp, index as u32);
    if same_running { w.svm.put_exempt(va, elusiv::id(), vec![0; <VerificationAccount as elusiv_types::accounts::SizedAccount>::SIZE]); }
    let wrong_dup = s.chance(1, 25);
    let dup = if wrong_dup { if skip { w.svm.airdrop(&user("not-the-duplicate"), SOL); } user("not-the-duplicate") } else { duplicate };

    // -- conditions --
    let mut why: Vec<&str> = vec![];
    let mut need = |c: bool, m: &'static str| if !c { why.push(m) };
    need(is_send, "only sends are available");
    need(vkey_id == 0 || !is_send, "verifying key");
    need(vk_ready, "the verifying key is not set up");
    need(index <= 128, "verification account index");
    need(!same_running, "verification account in use");
    need(!wrong_dup, "wrong nullifier-duplicate account");
    need(other_running == skip, "nullifier-duplicate account");
    need((1..=4).contains(&inputs.len()), "number of inputs");
    need(inputs.first().map(|i| i.0.is_some()).unwrap_or(false), "first root");
    let rooted: Vec<&B32> = inputs.iter().filter_map(|i| i.0.as_ref()).collect();
    need(rooted.len() <= 2, "number of trees");
    need(rooted.len() < 2 || trees[0] != trees[1], "distinct trees");
    for (i, r) in rooted.iter().take(2).enumerate() {
        need(canonical(r), "canonical root");
        let live = &c.roots[c.roots.len().saturating_sub(100)..];
        // (the root of the empty tree is the current one, before the first insertion)
        let empty = c.ptr == 0 && mr(r) == elusiv::state::storage::EMPTY_TREE[20];
        need(if trees[i] == c.trees { live.contains(r) || empty } else { c.closed[trees[i] as usize].map(|x| x == **r).unwrap_or(false) }, "known root");
    }
    let mut slot = 0;
    let mut slots = vec![];
    for (i, (r, n)) in inputs.iter().enumerate() {
        let t = match r { Some(_) => { slot += 1; slot - 1 } None => 0 };
        slots.push(t);
        need(canonical(n), "canonical nullifier");
        need((0..i).all(|j| inputs[j].1 != *n || slots[j] != t), "duplicate nullifier");
        need(t > 1 || !spent.contains(&(trees[t], *n)), "spent nullifier");
    }
    need(canonical(&output), "canonical output");
    need(output != zero_commitment(false), "zero commitment");
    need(!buffer[buffer.len().saturating_sub(128)..].contains(&output), "recent output commitment");
    need(window(&c, recent), "recent commitment index");
    need(amount >= opt, "optional fee");
    need(amount.checked_add(fee_).is_some(), "total amount");
    let _ = TOKENS;

    let ix = w.init_verification_ix(fp, index, vkey_id, trees, request, dup, user("identifier"), skip);
    let before = w.svm.accounts.clone();
    let r = w.svm.tx(&[ix], &[fp]);
    s.log(|| format!("ptr {} trees {} roots {} tree indices {trees:?} inputs {:?} recent {recent} amount {amount} fee {fee_} optional {opt} index {index} vkey {vkey_id} -> {r:?}, violated: {why:?}", c.ptr, c.trees, c.roots.len(), inputs.iter().map(|(r, n)| (r.map(|r| r[0]), n[0])).collect::<Vec<_>>()));
    for m in &why { s.label(*m); }
    if why.is_empty() && trees[0] == trees[1] {
        // one tree passed twice: undecided (rejected by the runtime's borrow rules at present)
        s.label("same tree twice");
    } else if why.is_empty() {
        check!(r.is_ok(), "rejected", "a request which satisfies every condition is rejected: {r:?}");
        s.label("accepted");
        let h = s.choices_hash(); s.nontrivial(h);
        let b = with_acc!(w, pda::<CommitmentBufferAccount>(), CommitmentBufferAccount, |a| a.contains(&mr(&output)));
        check!(b, "buffer", "the output commitment of an accepted request is not remembered");
        let again = elusiv::state::proof::VerificationState::None;
        let st = with_acc!(w, va, VerificationAccount, |a| (a.get_state(), a.get_tree_indices(0), a.get_tree_indices(1)));
        check!(st == (again, trees[0], trees[1]), "state", "verification account in state {:?}", st.0);
    } else {
        check!(r.is_err(), &format!("accepted: {}", why[0]), "a request is accepted although it violates: {why:?}");
        check!(w.svm.accounts == before, "rollback", "harness: failed transaction changed state");
        if why.len() == 1 { let h = s.choices_hash(); s.nontrivial(h); s.label(&format!("only: {}", why[0])); }
    }
    Ok(())
}

fn pda_bump(r: &ProofRequest) -> u8 { match r { ProofRequest::Send(p) => p.join_split.nullifier_duplicate_pda().1, ProofRequest::Migrate(p) => p.join_split.nullifier_duplicate_pda().1 } }

fn store(s: &mut Src) -> Res {
    let mut w = template().clone();
    let c = gen_chain(s, &mut w);
    if s.chance(1, 6) { with_acc!(w, pda::<elusiv::state::governor::GovernorAccount>(), GovernorAccount_, |a| a.set_commitment_batching_rate(&2)); }
    use elusiv::state::governor::GovernorAccount as GovernorAccount_;
    let rate = with_acc!(w, pda::<GovernorAccount_>(), GovernorAccount_, |a| a.get_commitment_batching_rate());
    let bases: Vec<B32> = (0..3).map(|_| element(s)).collect();
    let mut buffer: Vec<B32> = vec![];
    if s.bool() {
        let n = match s.below(3) { 0 => 127 + s.below(4), _ => s.below(6) };
        for i in 0..n {
            let v = if s.chance(1, 20) { s.pick(&bases) } else { fr_to_le(&fr_u64(1 << 40 | i as u64)) };
            if !buffer[buffer.len().saturating_sub(128)..].contains(&v) { buffer.push(v); }
        }
    }
    if !buffer.is_empty() { with_acc!(w, pda::<BaseCommitmentBufferAccount>(), BaseCommitmentBufferAccount, |a| for v in &buffer { assert!(a.try_insert(v).is_ok()); }); }
    let wild = |s: &mut Src| s.chance(1, 10);
    let base = match s.below(14) { 0 => zero_commitment(true), 1 => zero_commitment(false), 2 => { let v = s.pick(&bases); odd(s, &v) } 3 => odd(s, &zero_commitment(true)), 4 if !buffer.is_empty() => buffer[s.below(buffer.len())], _ => s.pick(&bases) };
    let commitment = match s.below(12) { 0 => { let v = gen_field(s); odd(s, &v) } _ => element(s) };
    let token = if wild(s) { s.pick(&[12u16, 13, 255, 65535, 3]) } else { s.pick(&[0u16, 1, 2, 5, 11]) };
    let (min, max) = TOKENS.get(token as usize).map(|t| (t.min, t.max)).unwrap_or((0, 0));
    let amount = match s.below(12) { 0 => min.wrapping_sub(1), 1 => max.wrapping_add(1), 2 => min, 3 => max, 4 => 0, 5 => s.u64_edge(), _ => if max > min { s.range(min, max) } else { 1 } };
    let recent = { let x = wild(s); gen_recent(s, &c, x) };
    let fee_version = if s.chance(1, 16) { s.pick(&[1u32, u32::MAX]) } else { 0 };
    let min_batching_rate = if s.chance(1, 12) { s.pick(&[0u32, 1, 2, 3, 4, 5]) } else { rate };
    let index = s.below(1000) as u32;
    let in_use = s.chance(1, 16);
    let h = pda_at::<BaseCommitmentHashingAccount>(index).0;
    if in_use { w.svm.put_exempt(h, elusiv::id(), vec![0; <BaseCommitmentHashingAccount as elusiv_types::accounts::SizedAccount>::SIZE]); }
    // (always solvent)
    if (token as usize) < TOKENS.len() { w.fund(&user("sender"), 10_000_000 * SOL, u64::MAX / 2); }
    let mut why: Vec<&str> = vec![];
    let mut need = |c: bool, m: &'static str| if !c { why.push(m) };
    need((token as usize) < TOKENS.len(), "token");
    need(amount >= min && amount <= max, "amount");
    need(canonical(&base), "canonical base commitment");
    need(canonical(&commitment), "canonical commitment");
    need(base != zero_commitment(true), "zero base commitment");
    need(!buffer[buffer.len().saturating_sub(128)..].contains(&base), "recent base commitment");
    need(window(&c, recent), "recent commitment index");
    need(fee_version == 0, "fee version");
    need(min_batching_rate == rate, "batching rate");
    need(!in_use, "hashing account in use");
    let request = BaseCommitmentHashRequest { base_commitment: RawU256::new(base), token_id: token, amount, recent_commitment_index: recent, commitment: RawU256::new(commitment), fee_version, min_batching_rate };
    let ix = w.store_ix(user("sender"), user(WARDEN), index, request, [0; 17]);
    let r = w.svm.tx(&[ix], &[user("sender"), user(WARDEN)]);
    s.log(|| format!("ptr {} token {token} amount {amount} recent {recent} fee version {fee_version} rate {min_batching_rate}/{rate} -> {r:?}, violated: {why:?}", c.ptr));
    for m in &why { s.label(*m); }
    let hh = s.choices_hash();
    if why.is_empty() {
        check!(r.is_ok(), "rejected", "a request which satisfies every condition is rejected: {r:?}");
        let b = with_acc!(w, pda::<BaseCommitmentBufferAccount>(), BaseCommitmentBufferAccount, |a| a.contains(&base));
        check!(b, "buffer", "the base commitment of an accepted request is not remembered");
        s.label("accepted");
        s.nontrivial(hh);
    } else {
        check!(r.is_err(), &format!("accepted: {}", why[0]), "a request is accepted although it violates: {why:?}");
        if why.len() == 1 { s.nontrivial(hh); s.label(&format!("only: {}", why[0])); }
    }
    Ok(())
}

fn main() {
    kat();
    let _: Option<Pubkey> = None;
    Suite::new("P19", "requests that satisfy every condition or violate exactly one")
        .assume("the storage account's root history and pointers, spent nullifiers and buffers are put into arbitrary states through the accounts' own setters")
        .test("send", 20000, 600000, send)
        .test("store", 12000, 400000, store)
        .main()
}
