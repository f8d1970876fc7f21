//! Property P07: a computation that is split over transactions computes exactly the whole: Poseidon hashes round by round, the hashes of
//! base commitments and of batches of commitments, in the announced parts, which use every round once and fit into the budget.
use ark_bn254::Fr;
use ark_ff::{Field, Zero};
use borsh::{BorshDeserialize, BorshSerialize};
use elusiv::commitment::poseidon_hash::*;
use elusiv::commitment::*;
use elusiv::elusiv_computation::{compute_unit_instructions, PartialComputation, COMPUTE_UNIT_PADDING};
use elusiv::processor::BaseCommitmentHashRequest;
use elusiv::proof::verifier::prepare_public_inputs_instructions;
use elusiv::state::commitment::*;
use elusiv::types::RawU256;
use elusiv_types::accounts::{ProgramAccount, SizedAccount};
use harness::poseidon::*;
use harness::prelude::*;

type B32 = [u8; 32];

fn gen(s: &mut Src) -> Fr {
    match s.below(8) { 0 => Fr::zero(), 1 => Fr::from(1u64), 2 => -Fr::from(1u64), 3 => Fr::from(s.u64_edge()), _ => fr_from_le(&s.bytes::<32>()) }
}

/// one round of the reference
fn reference_round(r: usize, st: [Fr; 3]) -> [Fr; 3] {
    let p = params();
    let mut x = [Fr::zero(); 3];
    for i in 0..3 { x[i] = st[i] + p.rc[3 * r + i]; }
    let full = r < 4 || r >= 61;
    for (i, v) in x.iter_mut().enumerate() { if full || i == 0 { *v = v.pow([5u64]); } }
    let mut y = [Fr::zero(); 3];
    for i in 0..3 { for j in 0..3 { y[i] += p.mds[i][j] * x[j]; } }
    y
}

/// Every round of the sponge, from any state
fn rounds(s: &mut Src) -> Res {
    let r = s.below(65);
    let st = [gen(s), gen(s), gen(s)];
    let mut state = BinarySpongeHashingState(st);
    // stored between two transactions
    if s.bool() {
        let b = state.try_to_vec().unwrap();
        check_eq!(b.len(), 96, "state-size", "size of a state");
        state = BinarySpongeHashingState::try_from_slice(&b).unwrap();
        check!(state.0 == st, "state-store", "a stored state is read differently");
    }
    binary_poseidon_hash_partial(r as u32, &mut state);
    check!(state.0 == reference_round(r, st), "round", "round {r} of {st:?}");
    let h = s.choices_hash();
    s.nontrivial(h);
    Ok(())
}

fn hashes(s: &mut Src) -> Res {
    let (a, b) = (gen(s), gen(s));
    check!(full_poseidon2_hash(a, b) == hash2(a, b), "hash", "hash of {a}, {b}");
    let inverted = BinarySpongeHashingState::new(a, b, true);
    check!(inverted == BinarySpongeHashingState::new(b, a, false), "invert", "inverted order");
    let h = s.choices_hash();
    s.nontrivial(h);
    Ok(())
}

/// The hash of a base commitment, computed by instructions on the account
fn base(s: &mut Src) -> Res {
    let mut data = vec![0u8; BaseCommitmentHashingAccount::SIZE];
    // (the account may have been used before)
    for _ in 0..s.below(3) { let n = data.len(); let i = 2 + s.below(n - 2); data[i] = s.u8(); }
    { let mut a = BaseCommitmentHashingAccount::new(&mut data).unwrap(); a.set_is_active(&false); }
    let base = gen(s);
    let request = BaseCommitmentHashRequest {
        base_commitment: RawU256::new(fr_to_le(&base)), recent_commitment_index: s.u64_edge() as u32, amount: s.u64_edge(), token_id: s.u64_edge() as u16,
        commitment: RawU256::new([0; 32]), fee_version: s.u64_edge() as u32, min_batching_rate: s.below(5) as u32,
    };
    let expected = hash2(base, fr_from_limbs(&[request.amount, request.token_id as u64 + ((request.recent_commitment_index as u64) << 16), 0, 0]));
    {
        let mut a = BaseCommitmentHashingAccount::new(&mut data).unwrap();
        let r = a.setup(request, s.bytes(), s.bytes());
        check!(r.is_ok(), "base-setup", "{r:?}");
    }
    let n = BaseCommitmentHashComputation::IX_COUNT;
    for i in 0..n {
        let before = data.clone();
        // each transaction sees only the bytes
        let r = guard(|| compute_base_commitment_hash_partial(&mut BaseCommitmentHashingAccount::new(&mut data).unwrap()));
        check!(matches!(r, Ok(Ok(()))), "base-step", "part {i} of {n}: {r:?}");
        check!(before != data, "base-step", "part {i} of {n} has no effect");
    }
    let r = BaseCommitmentHashingAccount::new(&mut data).unwrap().get_state().result();
    check!(r == expected, "base-hash", "the hash is {r} instead of {expected}");
    let before = data.clone();
    for _ in 0..2 {
        let r = guard(|| compute_base_commitment_hash_partial(&mut BaseCommitmentHashingAccount::new(&mut data).unwrap()));
        check!(matches!(r, Ok(Err(_))) && before == data, "base-end", "a part after the last: {r:?}");
    }
    let h = s.choices_hash();
    s.nontrivial(h);
    Ok(())
}

/// The hashes of a batch with any siblings at any place of the tree
fn batch(s: &mut Src) -> Res {
    let mut data = vec![0u8; CommitmentHashingAccount::SIZE];
    let rounds = s.usize(1, 2);
    for _ in 0..rounds {
        let rate = s.below(5);
        let n = 1usize << rate;
        let any = s.u64() as u32;
        let ordering = (s.pick(&[0u32, 1, (1 << 20) - 1, 0x5_5555, 0xa_aaaa, any, any]) & ((1 << 20) - 1)) >> rate << rate;
        let siblings: Vec<Fr> = (0..20).map(|_| gen(s)).collect();
        let commitments: Vec<Fr> = (0..n).map(|_| gen(s)).collect();
        let mr = |v: &[Fr]| v.iter().map(fr_to_mr).collect::<Vec<B32>>();
        {
            let mut a = CommitmentHashingAccount::new(&mut data).unwrap();
            check!(a.setup(ordering, &mr(&siblings)).is_ok(), "batch-setup", "set up");
            check!(a.reset(rate as u32, 0, &mr(&commitments)).is_ok(), "batch-setup", "start");
        }
        // layer by layer
        let mut tree = commitments.clone();
        let mut layer = commitments.clone();
        while layer.len() > 1 {
            layer = layer.chunks(2).map(|c| hash2(c[0], c[1])).collect();
            tree.extend(&layer);
        }
        let mut above = vec![];
        let mut node = layer[0];
        for l in rate..20 {
            node = if (ordering >> l) & 1 == 1 { hash2(siblings[l], node) } else { hash2(node, siblings[l]) };
            above.push(node);
        }
        let parts = commitment_hash_computation_instructions(rate as u32);
        check_eq!(parts.iter().map(|p| *p as u32).sum::<u32>(), commitment_hash_computation_rounds(rate as u32), "parts", "rounds of the parts, rate {rate}");
        check_eq!(hash_count_per_batch(rate as u32), tree.len() - n + above.len(), "parts", "hashes, rate {rate}");
        for i in 0..parts.len() {
            let r = guard(|| compute_commitment_hash_partial(&mut CommitmentHashingAccount::new(&mut data).unwrap()));
            check!(matches!(r, Ok(Ok(()))), "batch-step", "part {i}, rate {rate}: {r:?}");
        }
        let before = data.clone();
        let r = guard(|| compute_commitment_hash_partial(&mut CommitmentHashingAccount::new(&mut data).unwrap()));
        check!(matches!(r, Ok(Err(_))) && before == data, "batch-end", "a part after the last: {r:?}");
        // the hashes above the batch, up to the new root (kept side by side)
        let path: Vec<u8> = above.iter().flat_map(fr_to_mr).collect();
        check!(data.windows(path.len()).any(|w| w == path), "batch-root", "hashes up to the root {node} of a batch, rate {rate}, place {ordering}");
        let mut a = CommitmentHashingAccount::new(&mut data).unwrap();
        for (i, x) in tree.iter().enumerate() { check!(a.get_hash_tree(i) == fr_to_mr(x), "batch-tree", "hash {i} of a batch, rate {rate}"); }
        for (i, x) in siblings.iter().enumerate() { check!(a.get_siblings(i) == fr_to_mr(x), "batch-siblings", "sibling {i} changed"); }
        a.set_is_active(&false);
        s.label(&format!("rate {rate}"));
    }
    let h = s.choices_hash();
    s.nontrivial(h);
    Ok(())
}

/// Parts of a computation take all rounds in order, as many as fit into the budget
fn parts(s: &mut Src) -> Res {
    let max = s.pick(&[100_000u32, 200_000, 1_400_000]) - COMPUTE_UNIT_PADDING;
    let costs: Vec<u32> = (0..s.below(200)).map(|_| match s.below(5) { 0 => max, 1 => max - s.below(100) as u32, 2 => s.below(10) as u32, _ => s.below(max as usize) as u32 / 3 }).collect();
    let optimal = |costs: &[u32], max: u32| {
        let mut v: Vec<u32> = vec![];
        let mut sum = u32::MAX;
        for c in costs { if sum != u32::MAX && sum + c <= max { sum += c; *v.last_mut().unwrap() += 1; } else { sum = *c; v.push(1); } }
        v
    };
    check_eq!(compute_unit_instructions(costs.clone(), max + COMPUTE_UNIT_PADDING), optimal(&costs, max), "parts", "parts of {costs:?} within {max}");
    // preparation of public inputs: 22 thousand compute units per non-zero byte, 30 thousand per non-zero input
    let n = s.usize(1, 14);
    let x: Vec<B32> = (0..n).map(|_| match s.below(4) { 0 => [0; 32], 1 => { let mut b = [0; 32]; for _ in 0..s.below(6) { b[s.below(32)] = s.u8(); } b } _ => s.bytes() }).collect();
    let costs: Vec<u32> = x.iter().flat_map(|b| b.iter().map(|v| if *v == 0 { 0 } else { 22 }).chain([if *b == [0; 32] { 0 } else { 30 }]).collect::<Vec<u32>>()).collect();
    check_eq!(prepare_public_inputs_instructions(&x, n), optimal(&costs, 1_330), "preparation", "parts of the preparation of {x:02x?}");
    let h = s.choices_hash();
    s.nontrivial(h);
    Ok(())
}

fn main() {
    kat();
    Suite::new("P07", "every case (distinct by its choices)")
        .assume("the reference constants are derived from the Grain LFSR of the Poseidon paper")
        .test("rounds", 60_000, 2_000_000, rounds)
        .test("hashes", 4_000, 200_000, hashes)
        .test("base", 3_000, 150_000, base)
        .test("batch", 1_500, 60_000, batch)
        .test("parts", 30_000, 1_000_000, parts)
        .main()
}
