//! Property P20: the active Merkle tree is replaced exactly when it is full (or has no room for the next batch), its final root is recorded
//! once for its nullifier account, no root of it stays valid as root of the active tree, and the next tree contains exactly the commitments
//! inserted afterwards (each with its metadata), none being lost or moved between the trees.
use elusiv::instruction::ElusivInstruction;
use elusiv::state::commitment::{CommitmentHashingAccount, CommitmentQueueAccount};
use elusiv::state::nullifier::NullifierAccount;
use elusiv::state::storage::StorageAccount;
use harness::poseidon::*;
use harness::prelude::*;
use harness::tree::*;
use harness::world::*;
use std::sync::OnceLock;

const COUNT: usize = 1 << 20;
const TREES: u32 = 4;

fn template() -> &'static (World, Tree) {
    static T: OnceLock<(World, Tree)> = OnceLock::new();
    T.get_or_init(|| {
        let mut w = World::full(fee([5000, 0, 0, 0, 0, 300, 0]), &[0, 1, 3, 6, 12, 24], &[], &[0, 15]);
        let payer = w.payer;
        for t in 2..TREES { w.svm.tx(&[open_nullifier(payer, t)], &[payer]).unwrap(); }
        w.fund(&user("warden"), 1000 * SOL, 0);
        w.svm.airdrop(&pda::<elusiv::state::governor::PoolAccount>(), 1000 * SOL);
        let mut tree = Tree::default();
        for i in 0..8u64 {
            let leaf = fr_u64(5000 + i);
            tree.insert(&[leaf]);
            w.enqueue(fr_to_mr(&leaf), [i as u8; 17], 0, 0);
            w.crank(user("warden"), 0);
        }
        (w, tree)
    })
}

#[derive(Clone)]
struct Batch { leaves: Vec<(u64, [u8; 17])>, rate: u32, ordering: usize, tree: u32, steps: usize, finalized: u32 }

struct Sim {
    w: World,
    trees: u32,
    ptr: usize,
    /// reference of the active tree; None if the pointer was moved by hand
    tree: Option<Tree>,
    metas: Vec<(usize, [u8; 17])>,
    queue: Vec<(u64, u32, [u8; 17])>,
    setup: Option<(usize, u32)>,
    active: Option<Batch>,
    closed: Vec<B32>,
    next: u64,
    resets: usize,
    /// roots of the closed trees
    old_roots: Vec<B32>,
    /// further roots of the active tree (known before the pointer was moved by hand)
    past: Vec<B32>,
    rate: u32,
}

impl Sim {
    fn raw_root(&self) -> B32 { self.w.svm.data(&child_key("storage", 0, 0))[1..33].try_into().unwrap() }
    fn root(&self) -> B32 { if self.ptr == 0 { fr_to_mr(&empty()[H]) } else { self.raw_root() } }
    /// length of the next batch, None if incomplete
    fn next_batch(&self) -> Option<usize> {
        let r = self.queue.first()?.1;
        let mut n = 0;
        // (the batch has the maximum rate of its elements)
        let mut rate = r;
        while n < self.queue.len() && n < 1 << rate { rate = rate.max(self.queue[n].1); n += 1; }
        if n == 1 << rate { Some(n) } else { None }
    }

    fn tx(&mut self, i: solana_program::instruction::Instruction) -> bool { self.w.svm.tx(&[i], &[user("warden")]).is_ok() }

    fn invariant(&mut self, what: &str) -> Res {
        let (ptr, trees) = with_acc!(self.w, pda::<StorageAccount>(), StorageAccount, |a| (a.get_next_commitment_ptr() as usize, a.get_trees_count()));
        check!((ptr, trees) == (self.ptr, self.trees), "pointer", "{what}: tree {trees} with {ptr} commitments, expected tree {} with {}", self.trees, self.ptr);
        for t in 0..TREES {
            let root = with_acc!(self.w, pda_at::<NullifierAccount>(t).0, NullifierAccount, |a| a.get_root());
            let want = self.closed.get(t as usize).copied().unwrap_or([0; 32]);
            check!(root == want, "closed-root", "{what}: the recorded root of tree {t} is {root:?}, expected {want:?}");
        }
        let q = commitment_queue(&self.w);
        check!(q.len() == self.queue.len() && q.iter().zip(&self.queue).all(|(a, b)| a.0 == fr_to_mr(&fr_u64(b.0))), "queue", "{what}: the queue differs");
        Ok(())
    }

    /// roots of the active tree
    fn roots(&mut self) -> Res {
        let (cur, old) = (self.root(), self.old_roots.clone());
        let with = [true, false];
        for children in with {
            let keys = self.w.storage_children.clone();
            let mut c: Vec<Option<Vec<u8>>> = vec![None; 25];
            // (only the first child account matters for the current root)
            if children { c[0] = Some(self.w.svm.data(&child_key("storage", 0, keys[0])).to_vec()); }
            let mut p = harness::acct::Parent { data: self.w.svm.data(&pda::<StorageAccount>()).to_vec(), children: c };
            for r in &old {
                let valid = with_parent!(p, StorageAccount, |a| a.is_root_valid(r));
                check!(!valid || *r == cur, "old-root", "a root of a closed tree is valid in the active tree (children passed: {children})");
            }
            if let (Some(t), true) = (&self.tree, self.ptr > 0) {
                for r in t.roots.iter().rev().take(20) { check!(with_parent!(p, StorageAccount, |a| a.is_root_valid(r)), "root", "root of the active tree is not valid (children passed: {children}); {} of {} roots; count {}", t.roots.iter().position(|x| x == r).unwrap(), t.roots.len(), with_parent!(p, StorageAccount, |a| a.get_mt_roots_count())); }
            }
        }
        if let Some(t) = &self.tree { check!(cur == fr_to_mr(&t.node(H, 0)), "root", "the root of the active tree ({} commitments) is not the one of its commitments", self.ptr); }
        for (i, m) in &self.metas {
            let c = child_key("metadata", 0, i / 65536);
            let at = 1 + (i % 65536) * 17;
            check!(self.w.svm.data(&c)[at..at + 17] == m[..], "metadata", "the metadata of commitment {i} is missing");
        }
        Ok(())
    }
}

fn enqueue(s: &mut Src, m: &mut Sim) {
    // (a batch belongs at a multiple of its size: the rate stays the same as long as a tree is)
    let rate = m.rate;
    let n = if s.chance(1, 5) { s.usize(1, 1 << rate) } else { 1 << rate };
    for _ in 0..n {
        if m.queue.len() >= 200 { return }
        m.next += 1;
        let meta = s.bytes::<17>();
        m.w.enqueue(fr_to_mr(&fr_u64(m.next)), meta, 0, rate);
        m.queue.push((m.next, rate, meta));
    }
}

fn setup(s: &mut Src, m: &mut Sim) -> Res {
    let i = m.w.setup_hash_ix(s.chance(1, 4));
    let ok = m.tx(i);
    if m.active.is_none() {
        check!(ok || m.ptr >= COUNT, "setup", "the set-up of the hashing fails at {}", m.ptr);
        if with_acc!(m.w, pda::<CommitmentHashingAccount>(), CommitmentHashingAccount, |a| a.get_setup() && a.get_ordering() as usize == m.ptr) { m.setup = Some((m.ptr, m.trees)); }
    }
    Ok(())
}

fn init(s: &mut Src, m: &mut Sim) -> Res {
    let i = m.w.init_hash_ix(s.chance(1, 4), true);
    m.tx(i);
    let active = with_acc!(m.w, pda::<CommitmentHashingAccount>(), CommitmentHashingAccount, |a| a.get_is_active());
    let next = m.next_batch();
    if m.active.is_some() { return Ok(()) }
    let should = match (m.setup, next) { (Some((o, _)), Some(n)) => o + n <= COUNT, _ => false };
    check!(active == should, "init", "hashing of the next batch started: {active} (set up: {:?}, next batch: {next:?}, {} commitments)", m.setup, m.ptr);
    if !active { return Ok(()) }
    let (ordering, tree) = m.setup.take().unwrap();
    let n = next.unwrap();
    let leaves: Vec<_> = m.queue.drain(..n).map(|q| (q.0, q.2)).collect();
    for (i, l) in leaves.iter().enumerate() { m.metas.retain(|x| x.0 != ordering + i); m.metas.push((ordering + i, l.1)); }
    m.active = Some(Batch { leaves, rate: n.trailing_zeros(), ordering, tree, steps: 0, finalized: 0 });
    check!((ordering, tree) == (m.ptr, m.trees), "stale-setup", "a batch is hashed for place {ordering} of tree {tree}, the active tree {} has {} commitments", m.trees, m.ptr);
    Ok(())
}

fn compute(m: &mut Sim, n: usize) {
    for k in 0..n {
        let i = m.w.compute_hash_ix(user("warden"), 0, k as u32);
        if !m.tx(i) { break }
        if let Some(b) = &mut m.active { b.steps += 1; }
    }
}

fn finalize(m: &mut Sim) -> Res {
    let i = m.w.finalize_hash_ix();
    let ok = m.tx(i);
    let all = m.active.as_ref().map(|b| elusiv::commitment::commitment_hash_computation_instructions(b.rate).len());
    let should = m.active.as_ref().map(|b| b.steps >= all.unwrap()).unwrap_or(false);
    check!(ok == should, "finalize", "finalization -> {ok} (active: {})", m.active.is_some());
    if !ok { return Ok(()) }
    let b = m.active.as_mut().unwrap();
    b.finalized += 1;
    if b.finalized > b.rate {
        let b = m.active.take().unwrap();
        m.ptr = b.ordering + b.leaves.len();
        if let Some(t) = &mut m.tree { let l: Vec<_> = b.leaves.iter().map(|l| fr_u64(l.0)).collect(); t.insert(&l); }
        // every leaf is in its place
        for (i, l) in b.leaves.iter().enumerate() {
            let at = COUNT - 1 + b.ordering + i;
            let c = child_key("storage", 0, at / 83_887);
            let o = 1 + (at % 83_887) * 32;
            check!(m.w.svm.data(&c)[o..o + 32] == fr_to_mr(&fr_u64(l.0)), "leaf", "commitment {} is not in its place", b.ordering + i);
        }
    }
    Ok(())
}

fn reset(s: &mut Src, m: &mut Sim) -> Res {
    let index = if s.chance(1, 5) { s.below(TREES as usize + 1) as u32 } else { m.trees };
    let other = if s.chance(1, 8) { s.below(TREES as usize) as u32 } else { index };
    let children = !s.chance(1, 8);
    let mut a = m.w.storage_metas(true);
    if !children { a.truncate(1); if s.bool() { a.push(w(child_key("storage", 0, 1))); } }
    a.extend([w(pda::<CommitmentQueueAccount>()), w(pda_at::<NullifierAccount>(other).0)]);
    let old = m.root();
    let ok = m.tx(ix(ElusivInstruction::ResetActiveMerkleTree { active_mt_index: index }, a));
    let full = m.ptr >= COUNT || m.next_batch().map(|n| m.ptr + n >= COUNT).unwrap_or(false);
    let should = full && index == m.trees && other == index && index < TREES && (children || m.ptr == 0);
    s.log(|| format!("reset of tree {index} at {} (next batch {:?}, hashing: {}) -> {ok}", m.ptr, m.next_batch(), m.active.is_some()));
    check!(ok == should, if ok { "reset" } else { "reset-refused" }, "reset of tree {index} (nullifier account {other}, active tree {} with {} commitments, next batch {:?}, root available: {children}) -> {ok}", m.trees, m.ptr, m.next_batch());
    if ok {
        check!(m.active.is_none(), "reset-while-hashing", "tree {index} is closed while a batch is being hashed for it");
        if let Some(t) = &m.tree { m.old_roots.extend(t.roots.iter().rev().take(20)); }
        m.old_roots.append(&mut m.past);
        m.old_roots.push(old);
        m.closed.push(old);
        m.trees += 1;
        m.ptr = 0;
        m.tree = Some(Tree::default());
        m.metas.clear();
        m.resets += 1;
        s.label("reset");
    }
    Ok(())
}

/// the pointer near the end of the tree, as if the tree had been filled
fn jump(s: &mut Src, m: &mut Sim) {
    if m.active.is_some() { return }
    let p = COUNT - match s.below(4) { 0 => 0, 1 => 1, 2 => s.usize(1, 4), _ => s.pick(&[8usize, 4, 2, 16]) };
    if p == m.ptr { return }
    with_acc!(m.w, pda::<StorageAccount>(), StorageAccount, |a| a.set_next_commitment_ptr(&(p as u32)));
    if let Some(t) = m.tree.take() { m.past.extend(t.roots.iter().rev().take(20)); }
    m.ptr = p;
    m.setup = None;
    with_acc!(m.w, pda::<CommitmentHashingAccount>(), CommitmentHashingAccount, |a| a.set_setup(&false));
    m.metas.clear();
}

fn history(s: &mut Src) -> Res {
    let (w, t) = template();
    let mut m = Sim { w: w.clone(), trees: 0, ptr: 8, tree: Some(t.clone()), metas: vec![], queue: vec![], setup: None, active: None, closed: vec![], next: 0, resets: 0, old_roots: vec![], past: vec![], rate: s.pick(&[0u32, 0, 1, 1, 2, 3]) };
    for _ in 0..s.usize(3, 30) {
        match s.weighted(&[5, 3, 3, 2, 2, 3, 4, 2]) {
            0 => enqueue(s, &mut m),
            1 => setup(s, &mut m)?,
            2 => init(s, &mut m)?,
            3 => { let n = s.usize(1, 40); compute(&mut m, n) }
            4 => finalize(&mut m)?,
            5 => {
                // honest run
                setup(s, &mut m)?;
                init(s, &mut m)?;
                compute(&mut m, 40);
                if let Some(b) = m.active.clone() { for _ in b.finalized..=b.rate { finalize(&mut m)?; } }
            }
            // (closing a tree while its last batch is set up or hashed: early_close)
            6 => if m.active.is_none() && m.setup.is_none() { reset(s, &mut m)? },
            _ => if m.trees < TREES - 1 { jump(s, &mut m) },
        }
        m.invariant("afterwards")?;
    }
    if m.setup.map(|x| x.1 != m.trees).unwrap_or(false) || m.trees >= TREES { return Ok(()) }
    // honest wardens insert everything that is complete
    if m.active.is_some() { compute(&mut m, 40); let b = m.active.clone().unwrap(); for _ in b.finalized..=b.rate { finalize(&mut m)?; } }
    let mut guard = 0;
    while m.next_batch().is_some() && m.trees < TREES - 1 {
        let n = m.next_batch().unwrap();
        if m.ptr + n > COUNT { let i = reset_mt(&m.w, m.trees); let old = m.root(); check!(m.tx(i), "stuck", "the full tree cannot be closed"); if let Some(t) = &m.tree { m.old_roots.extend(t.roots.iter().rev().take(20)); } m.old_roots.append(&mut m.past); m.old_roots.push(old); m.closed.push(old); m.trees += 1; m.ptr = 0; m.tree = Some(Tree::default()); m.metas.clear(); m.resets += 1; }
        let before = m.queue.len();
        setup(s, &mut m)?; init(s, &mut m)?; compute(&mut m, 40);
        if let Some(b) = m.active.clone() { for _ in b.finalized..=b.rate { finalize(&mut m)?; } }
        m.invariant("honest run")?;
        check!(m.queue.len() < before, "stuck", "{} commitments stay in the queue", before);
        guard += 1;
        if guard > 12 { break }
    }
    m.roots()?;
    if m.resets > 0 && m.ptr > 0 { let h = s.choices_hash(); s.nontrivial(h); s.label("commitments in a later tree"); }
    Ok(())
}

/// a tree is closed after the next batch was set up, or while it is being hashed for it
fn early_close(s: &mut Src) -> Res {
    let (w, t) = template();
    let mut m = Sim { w: w.clone(), trees: 0, ptr: 8, tree: Some(t.clone()), metas: vec![], queue: vec![], setup: None, active: None, closed: vec![], next: 0, resets: 0, old_roots: vec![], past: vec![], rate: s.pick(&[0u32, 1, 2]) };
    let n = 1 << m.rate;
    for _ in 0..n * 2 {
        m.next += 1;
        m.w.enqueue(fr_to_mr(&fr_u64(m.next)), [0; 17], 0, m.rate);
        m.queue.push((m.next, m.rate, [0; 17]));
    }
    with_acc!(m.w, pda::<StorageAccount>(), StorageAccount, |a| a.set_next_commitment_ptr(&((COUNT - n) as u32)));
    m.ptr = COUNT - n;
    m.past.extend(m.tree.take().unwrap().roots);
    setup(s, &mut m)?;
    if s.bool() {
        init(s, &mut m)?;
        let k = s.usize(0, 40);
        compute(&mut m, k);
        if k == 40 && m.rate > 0 && s.bool() { finalize(&mut m)?; }
    }
    let h = s.choices_hash();
    s.nontrivial(h);
    let i = reset_mt(&m.w, m.trees);
    if !m.tx(i) { m.invariant("refused reset")?; return Ok(()) }
    let old = m.root();
    if m.active.is_some() { return fail("reset-while-hashing", "the tree is closed while a batch is being hashed for it") }
    m.closed.push(old);
    m.old_roots.append(&mut m.past);
    (m.trees, m.ptr, m.tree) = (1, 0, Some(Tree::default()));
    init(s, &mut m)
}

fn main() {
    kat();
    Suite::new("P20", "histories with a closed tree and commitments inserted afterwards")
        .assume("the fill level of a tree is set by hand, the openings of its last places are those of an inconsistent tree")
        .test("rollover", 2_000, 60_000, history)
        .test("early_close", 60, 2_000, early_close)
        .main()
}
