//! Property P06: every commitment accepted into the queue becomes exactly one Merkle leaf, in acceptance order, with its
//! own metadata at the same index; nothing is lost, duplicated or altered for any order of (failing) crank instructions.
use elusiv::commitment::{commitment_hash_computation_instructions, commitments_per_batch};
use elusiv::processor::BaseCommitmentHashRequest;
use elusiv::state::commitment::{BaseCommitmentHashingAccount, CommitmentHashingAccount};
use elusiv::state::governor::GovernorAccount;
use elusiv::state::metadata::MetadataAccount;
use elusiv::state::storage::StorageAccount;
use elusiv::types::RawU256;
use elusiv_computation::PartialComputation;
use elusiv::commitment::BaseCommitmentHashComputation;
use harness::poseidon::*;
use harness::prelude::*;
use harness::tree::*;
use harness::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::sync::OnceLock;

fn template() -> &'static World {
    static T: OnceLock<World> = OnceLock::new();
    T.get_or_init(|| {
        let mut w = World::full(fee([5000, 50, 50, 1000, 1000, 300, 300]), &STORAGE_START_CHILDREN, &[], &[0]);
        w.fund(&user("warden"), 10_000 * SOL, 0);
        w.fund(&user("sender"), 100_000 * SOL, 0);
        w
    })
}

struct Job { commitment: B32, metadata: [u8; 17], steps: usize }

struct Sim {
    w: World,
    warden: Pubkey,
    jobs: BTreeMap<u32, Job>,
    next_job: u32,
    /// accepted commitments in order
    accepted: Vec<(B32, [u8; 17])>,
    rate: u32,
    tree: Tree,
}

impl Sim {
    fn ptr(&mut self) -> usize { with_acc!(self.w, pda::<StorageAccount>(), StorageAccount, |a| a.get_next_commitment_ptr() as usize) }
    /// commitments of the active batch
    fn hashing(&mut self) -> Vec<B32> {
        with_acc!(self.w, pda::<CommitmentHashingAccount>(), CommitmentHashingAccount, |a| if a.get_is_active() { (0..commitments_per_batch(a.get_batching_rate())).map(|i| a.get_hash_tree(i)).collect() } else { vec![] })
    }
}

fn store(s: &mut Src, m: &mut Sim) -> Res {
    let base = fr_from_le(&s.bytes::<32>());
    let ptr = m.ptr() as u32;
    let back = if s.bool() { 0 } else { s.below(3) as u32 };
    let recent = ptr.saturating_sub(back);
    let amount = match s.below(3) { 0 => 1000, 1 => 360 * SOL / 8, _ => s.range(1000, 5 * SOL) };
    let mut metadata = [0u8; 17];
    for b in metadata.iter_mut() { *b = s.u8(); }
    let request = BaseCommitmentHashRequest { base_commitment: RawU256::new(fr_to_le(&base)), recent_commitment_index: recent, amount, token_id: 0, commitment: RawU256::new([0; 32]), fee_version: 0, min_batching_rate: m.rate };
    // commitment = h(base_commitment, amount + (token_id + recent_commitment_index * 2^16) * 2^64)
    let want = fr_to_mr(&hash2(base, fr_from_limbs(&[amount, (recent as u64) << 16, 0, 0])));
    let i = m.next_job;
    let ixn = m.w.store_ix(user("sender"), m.warden, i, request, metadata);
    let r = m.w.svm.tx(&[ixn], &[user("sender"), m.warden]);
    check!(r.is_ok(), "store", "a valid deposit is rejected: {r:?}");
    m.next_job += 1;
    m.jobs.insert(i, Job { commitment: want, metadata, steps: 0 });
    s.log(|| format!("store #{i}"));
    Ok(())
}

fn compute_base(s: &mut Src, m: &mut Sim, i: u32) -> Res {
    let total = BaseCommitmentHashComputation::IX_COUNT;
    let ixn = m.w.compute_base_ix(i);
    let r = m.w.svm.tx(&[ixn], &[]);
    let job = m.jobs.get_mut(&i).unwrap();
    if job.steps < total { check!(r.is_ok(), "compute-base", "step {} of the base commitment hash fails: {r:?}", job.steps); job.steps += 1; }
    s.log(|| format!("compute-base #{i} -> {:?}", r.is_ok()));
    Ok(())
}

fn finalize_base(s: &mut Src, m: &mut Sim, i: u32) -> Res {
    let ixn = m.w.finalize_base_ix(m.warden, i, 0);
    let full = commitment_queue(&m.w).len() >= 239;
    let r = m.w.svm.tx(&[ixn], &[]);
    let done = m.jobs[&i].steps == BaseCommitmentHashComputation::IX_COUNT;
    check!(r.is_ok() == (done && !full), "finalize-base", "finalizing a base commitment (finished: {done}, queue full: {full}) -> {r:?}");
    s.log(|| format!("finalize-base #{i} -> {:?}", r.is_ok()));
    if r.is_ok() {
        let j = m.jobs.remove(&i).unwrap();
        check!(!m.w.svm.exists(&pda_at::<BaseCommitmentHashingAccount>(i).0), "not-closed", "the hashing account stays open");
        let q = commitment_queue(&m.w);
        check!(q.last() == Some(&(j.commitment, 0, m.rate)), "commitment-hash", "the enqueued commitment is not Poseidon(base commitment, amount/token/recent index)");
        m.accepted.push((j.commitment, j.metadata));
    }
    Ok(())
}

/// executes a crank instruction; whatever it answers, the invariant has to hold
fn crank(s: &mut Src, m: &mut Sim, what: u64) -> Res {
    let can_fail = s.chance(1, 3);
    let before = (m.hashing(), m.ptr());
    let (name, ixn, signers): (&str, _, Vec<Pubkey>) = match what {
        0 => ("setup", m.w.setup_hash_ix(can_fail), vec![]),
        1 => { let children = !s.chance(1, 4); (if children { "init" } else { "init without child" }, m.w.init_hash_ix(can_fail, children), vec![]) }
        2 => ("compute", m.w.compute_hash_ix(m.warden, 0, 0), vec![m.warden]),
        _ => ("finalize", m.w.finalize_hash_ix(), vec![]),
    };
    if what < 2 {
        // an instruction that may fail differs from one that may not only in that it does not stop its transaction
        let (mut strict, mut lenient) = (m.w.clone(), m.w.clone());
        let with = |f: bool| { let mut i = ixn.clone(); *i.data.last_mut().unwrap() = f as u8; i };
        let (a, b) = (strict.svm.tx(&[with(false)], &[]), lenient.svm.tx(&[with(true)], &[]));
        check!(b.is_ok(), "can-fail", "{name} stops its transaction although it is allowed to fail: {b:?}");
        check!(strict.svm.accounts == lenient.svm.accounts, "can-fail", "{name} that is allowed to fail has another effect (the strict one: {a:?})");
        if what == 1 { check!(a.is_ok() == (strict.svm.accounts != m.w.svm.accounts), "can-fail", "{name} that is not allowed to fail -> {a:?}, {} effect", if strict.svm.accounts != m.w.svm.accounts { "with" } else { "without" }); }
        s.label(if a.is_ok() { "can be started" } else { "cannot be started" });
    }
    let r = m.w.svm.tx(&[ixn], &signers);
    s.log(|| format!("{name} (can fail: {can_fail}) -> {:?}", r.is_ok()));
    if m.ptr() != before.1 {
        // the batch in progress was inserted
        let leaves: Vec<_> = before.0.iter().map(mr_to_fr).collect();
        check!(!leaves.is_empty() && m.ptr() == before.1 + leaves.len(), "leaf-count", "{} leaves inserted for a batch of {}", m.ptr() as i64 - before.1 as i64, leaves.len());
        m.tree.insert(&leaves);
        s.label("batch-inserted");
        storage(m)?;
    }
    invariant(m)
}

fn storage(m: &mut Sim) -> Res {
    let mut p = m.w.take_storage();
    let n = m.tree.next;
    let (leaves, root, valid) = with_parent!(p, StorageAccount, |a| {
        let leaves: Vec<B32> = (0..n).map(|i| a.get_node(i, H).unwrap()).collect();
        let root = a.get_root().unwrap();
        let v = a.is_root_valid(&root);
        (leaves, root, v)
    });
    m.w.put_storage(p);
    for i in 0..n { check!(leaves[i] == m.accepted[i].0, "leaf", "leaf {i} is not the {i}th accepted commitment"); }
    check!(root == fr_to_mr(&m.tree.node(H, 0)), "root", "tree root after {n} leaves differs from the reference tree");
    check!(valid, "root", "current root is not accepted");
    Ok(())
}

fn invariant(m: &mut Sim) -> Res {
    let ptr = m.ptr();
    let hashing = m.hashing();
    let queue = commitment_queue(&m.w);
    let meta = metadata_queue(&m.w);
    let total = ptr + hashing.len() + queue.len();
    check!(total == m.accepted.len(), "lost", "{} accepted commitments, but {ptr} leaves + {} being hashed + {} queued", m.accepted.len(), hashing.len(), queue.len());
    for (i, c) in hashing.iter().enumerate() { check!(*c == m.accepted[ptr + i].0, "order", "commitment {i} of the active batch is not accepted commitment {}", ptr + i); }
    for (i, q) in queue.iter().enumerate() { check!(q.0 == m.accepted[ptr + hashing.len() + i].0, "order", "queue entry {i} is not accepted commitment {}", ptr + hashing.len() + i); }
    check!(meta.len() == queue.len(), "metadata", "{} queued metadata entries for {} queued commitments", meta.len(), queue.len());
    for (i, q) in meta.iter().enumerate() { check!(*q == m.accepted[ptr + hashing.len() + i].1, "metadata", "metadata queue entry {i} does not belong to its commitment"); }
    let mptr = with_acc!(m.w, pda::<MetadataAccount>(), MetadataAccount, |a| a.get_next_metadata_ptr() as usize);
    check!(mptr == ptr + hashing.len(), "metadata", "{mptr} metadata entries stored for {ptr} leaves and {} commitments being hashed", hashing.len());
    let child = m.w.svm.data(&child_key("metadata", 0, 0));
    for i in 0..mptr { check!(child[1 + 17 * i..18 + 17 * i] == m.accepted[i].1, "metadata", "metadata {i} does not belong to leaf {i}"); }
    Ok(())
}

fn history(s: &mut Src) -> Res {
    let mut m = Sim { w: template().clone(), warden: user("warden"), jobs: BTreeMap::new(), next_job: 0, accepted: vec![], rate: 0, tree: Tree::default() };
    m.rate = s.pick(&[0u32, 0, 1, 2]);
    let rate = m.rate;
    with_acc!(m.w, pda::<GovernorAccount>(), GovernorAccount, |a| a.set_commitment_batching_rate(&rate));
    let n = s.usize(4, 26);
    for _ in 0..n {
        match s.weighted(&[4, 2, 2, 6, 2, 2]) {
            0 => {
                // a complete deposit
                store(s, &mut m)?;
                let i = m.next_job - 1;
                for _ in 0..BaseCommitmentHashComputation::IX_COUNT { compute_base(s, &mut m, i)?; }
                finalize_base(s, &mut m, i)?;
            }
            1 => store(s, &mut m)?,
            2 => { let k: Vec<u32> = m.jobs.keys().copied().collect(); if !k.is_empty() { let i = s.pick(&k); compute_base(s, &mut m, i)?; } }
            3 => {
                // the crank's usual order, possibly cut short
                let cut = s.below(8);
                if cut == 1 { continue }
                crank(s, &mut m, 0)?;
                if cut == 2 { continue }
                crank(s, &mut m, 1)?;
                if m.hashing().is_empty() { continue }
                let steps = commitment_hash_computation_instructions(m.rate).len();
                let k = if cut == 3 { s.usize(0, steps) } else { steps };
                for _ in 0..k { let ixn = m.w.compute_hash_ix(m.warden, 0, 0); let _ = m.w.svm.tx(&[ixn], &[m.warden]); }
                if cut == 4 { continue }
                for _ in 0..=m.rate { crank(s, &mut m, 3)?; }
            }
            4 => { let k: Vec<u32> = m.jobs.keys().copied().collect(); if !k.is_empty() { let i = s.pick(&k); finalize_base(s, &mut m, i)?; } }
            _ => { let w = s.below(4) as u64; crank(s, &mut m, w)?; }
        }
        invariant(&mut m)?;
    }
    // the rest of the queue can always be drained (complete batches)
    let mut rounds = 0;
    loop {
        let queued = commitment_queue(&m.w).len();
        if m.hashing().is_empty() && queued < commitments_per_batch(m.rate) { break; }
        rounds += 1;
        check!(rounds < 60, "stuck", "the commitment queue cannot be drained: {queued} left");
        let ixs = [m.w.setup_hash_ix(true), m.w.init_hash_ix(true, true)];
        for i in ixs { let _ = m.w.svm.tx(&[i], &[]); }
        for _ in 0..commitment_hash_computation_instructions(m.rate).len() { let i = m.w.compute_hash_ix(m.warden, 0, 0); let _ = m.w.svm.tx(&[i], &[m.warden]); }
        for _ in 0..=m.rate { crank(s, &mut m, 3)?; }
    }
    invariant(&mut m)?;
    let p = m.ptr();
    check!(p / commitments_per_batch(rate) == m.accepted.len() / commitments_per_batch(rate), "stuck", "after draining {p} of {} commitments are leaves", m.accepted.len());
    storage(&mut m)?;
    s.label(&format!("rate {rate}"));
    if m.tree.roots.len() >= 2 { let h = s.choices_hash(); s.nontrivial(h); }
    Ok(())
}

fn main() {
    kat();
    Suite::new("P06", "histories in which at least two batches became Merkle leaves")
        .assume("the crank passes the storage child accounts of the touched path; the batching rate is constant per history")
        .test("pipeline", 2000, 60000, history)
        .main()
}
