//! Property P05: the active Merkle tree always equals the Poseidon tree over the inserted commitments; openings,
//! the current root and the window of recent roots agree with a reference tree for any batching and position.
use ark_bn254::Fr;
use elusiv::commitment::{commitment_hash_computation_instructions, commitments_per_batch, compute_commitment_hash_partial, hash_count_per_batch};
use elusiv::state::commitment::CommitmentHashingAccount;
use elusiv::state::storage::{StorageAccount, HISTORY_ARRAY_SIZE, MT_COMMITMENT_COUNT};
use elusiv_types::accounts::{ProgramAccount, SizedAccount};
use harness::acct::{parent_for, Parent};
use harness::poseidon::*;
use harness::prelude::*;
use harness::tree::*;

fn all_children() -> Vec<usize> { (0..25).collect() }

struct Sim { p: Parent, t: Tree, h: Vec<u8>, base: usize }

/// one batch through the real hashing account; `interleave` reads happen between the computation steps
fn insert_batch(s: &mut Src, sim: &mut Sim, rate: u32) -> Res {
    let n = commitments_per_batch(rate);
    let leaves: Vec<Fr> = (0..n).map(|_| gen_fr(s)).collect();
    let start = sim.t.next;
    let before_root = fr_to_mr(&sim.t.node(H, 0));
    {
        let siblings = with_parent!(sim.p, StorageAccount, |a| a.get_mt_opening(start));
        let siblings = match siblings { Ok(x) => x, Err(e) => return fail("opening-error", format!("opening of {start}: {e:?}")) };
        for (h, (g, w)) in siblings.iter().zip(sim.t.opening(start)).enumerate() { check!(*g == w, "opening", "sibling at height {h} of the next leaf {start} differs from the reference tree"); }
        let mut acc = CommitmentHashingAccount::new(&mut sim.h).unwrap();
        check!(acc.setup(start as u32, &siblings).is_ok(), "setup", "hashing setup refused on an inactive account");
        let mr: Vec<[u8; 32]> = leaves.iter().map(fr_to_mr).collect();
        check!(acc.reset(rate, 0, &mr).is_ok(), "setup", "hashing reset refused after setup");
    }
    let ixs = commitment_hash_computation_instructions(rate).len();
    check_eq!(hash_count_per_batch(rate), (1usize << rate) - 1 + H - rate as usize, "hash-count", "hashes for batching rate {rate}");
    for i in 0..ixs {
        let mut acc = CommitmentHashingAccount::new(&mut sim.h).unwrap();
        let r = compute_commitment_hash_partial(&mut acc);
        check!(r.is_ok(), "compute", "hash computation step {i} of {ixs} failed: {r:?}");
    }
    {
        let mut acc = CommitmentHashingAccount::new(&mut sim.h).unwrap();
        check!(compute_commitment_hash_partial(&mut acc).is_err(), "compute", "a finished hash computation accepts another step");
    }
    for ix in 0..=rate {
        let root = with_parent!(sim.p, StorageAccount, |a| a.get_root().unwrap());
        // until the last step the tree still shows the old root
        check!(root == before_root, "early-root", "root changed before the batch was completely inserted (step {ix})");
        let hashing = &mut sim.h;
        with_parent!(sim.p, StorageAccount, |a| { let acc = CommitmentHashingAccount::new(hashing).unwrap(); acc.update_mt(&mut a, ix) });
    }
    { let mut acc = CommitmentHashingAccount::new(&mut sim.h).unwrap(); acc.set_is_active(&false); acc.set_setup(&false); }
    sim.t.insert(&leaves);
    s.log(|| format!("insert {n} leaves at {start} (batching rate {rate})"));
    Ok(())
}

fn gen_fr(s: &mut Src) -> Fr {
    match s.below(4) { 0 => fr_u64(s.range(0, 3)), 1 => -fr_u64(s.range(1, 3)), _ => fr_from_le(&s.bytes::<32>()) }
}

fn verify(s: &mut Src, sim: &mut Sim) -> Res {
    let t = &sim.t;
    let (root, ptr) = with_parent!(sim.p, StorageAccount, |a| (a.get_root().unwrap(), a.get_next_commitment_ptr()));
    check_eq!(ptr as usize, t.next, "next-ptr", "next leaf index");
    check!(root == fr_to_mr(&t.node(H, 0)), "root", "tree root after {} leaves differs from the reference tree", t.next);
    for _ in 0..3 {
        // (leaves before the generated start position are only known as subtree roots)
        let i = if t.next > sim.base && s.bool() { t.next - 1 - s.below(t.next - sim.base) } else if sim.base < MT_COMMITMENT_COUNT { s.usize(sim.base, MT_COMMITMENT_COUNT - 1) } else { continue };
        let (o, leaf) = with_parent!(sim.p, StorageAccount, |a| (a.get_mt_opening(i).unwrap(), a.get_node(i, H).unwrap()));
        check!(leaf == fr_to_mr(&t.node(0, i)), "leaf", "leaf {i} differs from the reference tree (next {})", t.next);
        for (h, (g, w)) in o.iter().zip(t.opening(i)).enumerate() { check!(*g == w, "opening", "opening of leaf {i}: sibling at height {h} differs (next {})", t.next); }
    }
    roots(s, sim)
}

/// the roots which must be accepted: the current one and the last 100 ones of this tree; nothing else
fn roots(s: &mut Src, sim: &mut Sim) -> Res {
    let t = &sim.t;
    let n = t.roots.len();
    let with_children = s.bool();
    let mut p = if with_children { sim.p.clone_light() } else { Parent { data: sim.p.data.clone(), children: vec![None; sim.p.children.len()] } };
    let back = match s.below(5) { 0 => 1, 1 => HISTORY_ARRAY_SIZE, 2 => HISTORY_ARRAY_SIZE + 1, 3 => s.usize(1, 6), _ => s.usize(1, n + 2) };
    let mut cands: Vec<([u8; 32], bool, String)> = vec![];
    if back <= n {
        let r = t.roots[n - back];
        let valid = t.roots.iter().rev().take(HISTORY_ARRAY_SIZE).any(|x| *x == r);
        cands.push((r, valid, format!("root {back} insertions ago")));
    }
    if n > 0 { cands.push((t.roots[n - 1], true, "current root".into())); }
    let e = fr_to_mr(&empty()[H]);
    if n == 0 && t.next == 0 { cands.push((e, true, "root of the empty tree".into())); } else if t.next > 0 { cands.push((e, t.roots.iter().rev().take(HISTORY_ARRAY_SIZE).any(|x| *x == e), "root of the empty tree (tree not empty)".into())); }
    cands.push(([0; 32], false, "zero".into()));
    if n > 1 { let mut r = t.roots[n - 1]; r.rotate_left(s.usize(1, 31)); let ok = t.roots.contains(&r); cands.push((r, ok, "rotated root".into())); }
    if n > 1 {
        // the end of a root and the beginning of the next one
        let (i, at) = (n - 2 - s.below((n - 1).min(110)), s.usize(1, 31));
        let mut r = [0; 32];
        r[..32 - at].copy_from_slice(&t.roots[i][at..]);
        r[32 - at..].copy_from_slice(&t.roots[i + 1][..at]);
        let ok = t.roots.iter().rev().take(HISTORY_ARRAY_SIZE).any(|x| *x == r);
        cands.push((r, ok, "parts of two neighbouring roots".into()));
    }
    if t.next > 0 { let l = fr_to_mr(&t.node(0, t.next - 1)); let ok = t.roots.contains(&l); cands.push((l, ok, "a leaf".into())); }
    for (r, want, what) in cands {
        let got = with_parent!(p, StorageAccount, |a| a.is_root_valid(&r));
        check!(got == want, if want { "root-rejected" } else { "root-accepted" }, "is_root_valid({what}) = {got}, expected {want}; {n} insertions so far, child accounts passed: {with_children}");
    }
    Ok(())
}

trait Light { fn clone_light(&self) -> Parent; }
impl Light for Parent {
    /// only the child which stores the root is needed for root checks
    fn clone_light(&self) -> Parent { let mut c = vec![None; self.children.len()]; c[0] = self.children[0].clone(); Parent { data: self.data.clone(), children: c } }
}

fn sim_at(s: &mut Src, next: usize) -> Sim {
    let mut sim = Sim { p: parent_for::<StorageAccount>(&all_children()), t: Tree::default(), h: vec![0; CommitmentHashingAccount::SIZE], base: next };
    if next > 0 {
        // the left siblings on the frontier stand for arbitrary already inserted subtrees
        sim.t.next = next;
        let mut sets = vec![];
        for h in 0..H {
            let i = next >> h;
            if i & 1 == 1 { let v = gen_fr(s); sim.t.nodes.insert((h, i - 1), v); sets.push((h, i - 1, v)); }
        }
        // nodes on the path of the last inserted leaf are stored as well
        for h in 0..=H {
            let i = (next - 1) >> h;
            if !sim.t.nodes.contains_key(&(h, i)) {
                let v = if h == 0 { gen_fr(s) } else { hash2(sim.t.node(h - 1, 2 * i), sim.t.node(h - 1, 2 * i + 1)) };
                sim.t.nodes.insert((h, i), v);
                sets.push((h, i, v));
            }
        }
        with_parent!(sim.p, StorageAccount, |a| {
            for (h, i, v) in &sets { a.set_node(&fr_to_mr(v), *i, H - h).unwrap(); }
            a.set_next_commitment_ptr(&(next as u32));
        });
    }
    sim
}

fn from_empty(s: &mut Src) -> Res {
    let mut sim = sim_at(s, 0);
    let n = s.usize(1, 7);
    let mut batched = false;
    for _ in 0..n {
        // a batch must start aligned (commitments are only batched with an equal batching rate)
        let max = if sim.t.next == 0 { 4 } else { sim.t.next.trailing_zeros().min(4) };
        let rate = match s.below(3) { 0 => 0, _ => s.range(0, max as u64) as u32 };
        if rate > 0 { batched = true; }
        insert_batch(s, &mut sim, rate)?;
        verify(s, &mut sim)?;
    }
    if batched { s.label("batched"); }
    if sim.t.roots.len() > 1 { let h = s.choices_hash(); s.nontrivial(h); }
    Ok(())
}

fn anywhere(s: &mut Src) -> Res {
    let rate = s.range(0, 4) as u32;
    let size = 1usize << rate;
    // aligned start; preferably next to a subtree or child-account boundary or at the end of the tree
    let at = match s.below(4) {
        0 => s.below(MT_COMMITMENT_COUNT),
        1 => (1usize << s.usize(4, 19)) + s.usize(0, 40) * size,
        2 => MT_COMMITMENT_COUNT - size * s.usize(1, 3),
        _ => { let b = 83_887 * s.usize(13, 24) - (MT_COMMITMENT_COUNT - 1); b.saturating_sub(s.below(40)) } // leaves around a child boundary
    };
    let at = (at.max(size) / size * size).min(MT_COMMITMENT_COUNT - size);
    let mut sim = sim_at(s, at);
    for i in 0..s.usize(1, 3) {
        if sim.t.next + size > MT_COMMITMENT_COUNT { s.label("reached-end"); break; }
        insert_batch(s, &mut sim, rate)?;
        // root history only covers roots of insertions performed here
        let _ = i;
        verify(s, &mut sim)?;
    }
    s.label(format!("rate={rate}"));
    let h = s.choices_hash();
    s.nontrivial(h);
    Ok(())
}

/// long histories: the window holds exactly the last 100 roots (roots written through the real insertion, hashes cached)
fn window(s: &mut Src) -> Res {
    let mut sim = sim_at(s, 0);
    let n = s.usize(90, 260);
    let batched = s.bool();
    for _ in 0..n {
        let max = if sim.t.next == 0 { 2 } else { sim.t.next.trailing_zeros().min(2) };
        let rate = if batched { s.range(0, max as u64) as u32 } else { 0 };
        // the hashes are supplied instead of computed here (their computation is covered by the other tests)
        let cnt = 1usize << rate;
        let start = sim.t.next;
        let leaves: Vec<Fr> = (0..cnt).map(|_| fr_u64(s.u64())).collect();
        // cheap stand-in nodes: root value unique per insertion
        let root = fr_u64(0x1000_0000 + sim.t.roots.len() as u64);
        let hashing = &mut sim.h;
        {
            let mut acc = CommitmentHashingAccount::new(hashing).unwrap();
            acc.set_ordering(&(start as u32));
            acc.set_batching_rate(&rate);
            for (i, l) in leaves.iter().enumerate() { acc.set_hash_tree(i, &fr_to_mr(l)); }
            let total = hash_count_per_batch(rate);
            let state = |v: Fr| elusiv::commitment::poseidon_hash::BinarySpongeHashingState([v, fr_u64(0), fr_u64(0)]);
            for i in 0..total { acc.save_finished_hash(i, &state(if i + 1 == total { root } else { fr_u64(7) })); }
        }
        with_parent!(sim.p, StorageAccount, |a| { let acc = CommitmentHashingAccount::new(hashing).unwrap(); for ix in 0..=rate { acc.update_mt(&mut a, ix) } });
        sim.t.next += cnt;
        sim.t.roots.push(fr_to_mr(&root));
        let got = with_parent!(sim.p, StorageAccount, |a| (a.get_root().unwrap(), a.get_next_commitment_ptr()));
        check!(got == (fr_to_mr(&root), sim.t.next as u32), "root", "root / pointer after inserting {cnt} at {start}");
        if s.chance(1, 8) { window_check(s, &mut sim)?; }
    }
    window_check(s, &mut sim)?;
    if s.chance(1, 3) {
        // closing the tree forgets all roots
        with_parent!(sim.p, StorageAccount, |a| a.reset());
        let old = sim.t.roots[sim.t.roots.len() - 1 - s.below(sim.t.roots.len().min(100))];
        let ok = with_parent!(sim.p, StorageAccount, |a| (a.is_root_valid(&old), a.is_root_valid(&fr_to_mr(&empty()[H])), a.get_next_commitment_ptr()));
        check!(ok == (false, true, 0), "reset", "after a reset: old root valid {}, empty root valid {}, pointer {}", ok.0, ok.1, ok.2);
        s.label("reset");
    }
    let h = s.choices_hash();
    s.nontrivial(h);
    Ok(())
}

fn window_check(s: &mut Src, sim: &mut Sim) -> Res {
    let n = sim.t.roots.len();
    for _ in 0..4 {
        let back = match s.below(4) { 0 => 100, 1 => 101, 2 => 1, _ => s.usize(1, n) };
        if back > n { continue; }
        let with_children = s.bool();
        let mut p = if with_children { sim.p.clone_light() } else { Parent { data: sim.p.data.clone(), children: vec![None; 25] } };
        let r = sim.t.roots[n - back];
        let got = with_parent!(p, StorageAccount, |a| a.is_root_valid(&r));
        check!(got == (back <= 100), if back <= 100 { "root-rejected" } else { "root-accepted" }, "root from {back} insertions ago: accepted = {got} (after {n} insertions, child accounts passed: {with_children})");
    }
    Ok(())
}

fn main() {
    kat();
    Suite::new("P05", "histories with at least two inserted batches, or an insertion at a generated non-empty position")
        .assume("for positions deep in the tree the already inserted left subtrees are represented by arbitrary node values")
        .test("from-empty", 1500, 60000, from_empty)
        .test("anywhere", 2000, 80000, anywhere)
        .test("root-window", 700, 30000, window)
        .main()
}
