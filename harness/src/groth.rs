//! Groth16 with known trapdoor: verifying keys, proofs and the verdict as an equation over scalars.
//! With `A = a·G1`, `B = b·G2`, `C = c·G1` the pairing equation `e(A,B) = e(α,β)·e(P,γ)·e(C,δ)` holds iff `a·b = α·β + p·γ + c·δ`.
use ark_bn254::{Bn254, Fq12, Fr, G1Affine, G1Projective, G2Affine};
use ark_ec::bn::G2Prepared;
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_ff::{Field, PrimeField, Zero};
use borsh::BorshSerialize;
use elusiv::fields::{Wrap, G1A, G2A};
use elusiv::proof::vkey::VerifyingKey;
use elusiv::types::Proof;
use pbt::Src;

use crate::poseidon::fr_from_le;
use crate::world::B32;

#[derive(Clone, Debug)]
pub struct Toxic { pub alpha: Fr, pub beta: Fr, pub gamma: Fr, pub delta: Fr, pub ic: Vec<Fr> }

pub fn g1(k: Fr) -> G1Affine { G1Affine::prime_subgroup_generator().mul(k.into_repr()).into_affine() }
pub fn g2(k: Fr) -> G2Affine { G2Affine::prime_subgroup_generator().mul(k.into_repr()).into_affine() }

pub fn gen_fr(s: &mut Src) -> Fr { fr_from_le(&s.bytes::<32>()) }
fn nonzero(s: &mut Src) -> Fr { let f = gen_fr(s); if f.is_zero() { Fr::from(1u64) } else { f } }

impl Toxic {
    pub fn gen(s: &mut Src, n: usize) -> Toxic {
        let mut ic: Vec<Fr> = (0..=n).map(|_| if s.chance(1, 12) { Fr::zero() } else { gen_fr(s) }).collect();
        // related entries: sums cancel or coincide
        if n > 0 && s.chance(1, 6) { let (i, j) = (s.below(n + 1), s.below(n + 1)); ic[i] = if s.bool() { ic[j] } else { -ic[j] }; }
        Toxic { alpha: nonzero(s), beta: nonzero(s), gamma: nonzero(s), delta: nonzero(s), ic }
    }
    /// fixed, without any relation between the entries
    pub fn fixed(seed: u64, n: usize) -> Toxic {
        let f = |i: u64| fr_from_le(&solana_program::hash::hashv(&[&seed.to_le_bytes(), &i.to_le_bytes()]).to_bytes());
        Toxic { alpha: f(0), beta: f(1), gamma: f(2), delta: f(3), ic: (0..=n as u64).map(|i| f(4 + i)).collect() }
    }
    pub fn n(&self) -> usize { self.ic.len() - 1 }

    pub fn prepared(&self, x: &[B32]) -> Fr { x.iter().enumerate().fold(self.ic[0], |p, (i, x)| p + self.ic[i + 1] * fr_from_le(x)) }
    pub fn verdict(&self, x: &[B32], a: Fr, b: Fr, c: Fr) -> bool { a * b == self.alpha * self.beta + self.prepared(x) * self.gamma + c * self.delta }
    /// the `c` which completes a valid proof
    pub fn solve(&self, x: &[B32], a: Fr, b: Fr) -> Fr { (a * b - self.alpha * self.beta - self.prepared(x) * self.gamma) * self.delta.inverse().unwrap() }

    /// The precomputed key in the layout documented at `VerifyingKey::new`
    pub fn source(&self) -> Vec<u8> {
        let n = self.n();
        let mut out = Vec::with_capacity(VerifyingKey::source_size(n));
        let (al, be, ga, de) = (g1(self.alpha), g2(self.beta), g2(self.gamma), g2(self.delta));
        let ab: Fq12 = Bn254::pairing(al, be);
        Wrap(ab).serialize(&mut out).unwrap();
        G1A(g1(self.ic[0])).serialize(&mut out).unwrap();
        let mut points = Vec::with_capacity(n * 32 * 255);
        for i in 1..=n {
            let mut base = g1(self.ic[i]);
            for _ in 0..32 {
                let mut acc = G1Projective::zero();
                for _ in 0..255 { acc.add_assign_mixed(&base); points.push(acc); }
                acc.add_assign_mixed(&base);
                base = acc.into_affine();
            }
        }
        G1Projective::batch_normalization(&mut points);
        for p in points { G1A(p.into_affine()).serialize(&mut out).unwrap(); }
        for g in [ga, de] {
            let p: G2Prepared<ark_bn254::Parameters> = G2Prepared::from(-g);
            assert_eq!(p.ell_coeffs.len(), 91);
            for c in p.ell_coeffs { for c in [c.0, c.1, c.2] { Wrap(c).serialize(&mut out).unwrap(); } }
        }
        G1A(al).serialize(&mut out).unwrap();
        for g in [be, ga, de] { G2A(g).serialize(&mut out).unwrap(); }
        assert_eq!(out.len(), VerifyingKey::source_size(n));
        out
    }
}

pub fn proof(a: Fr, b: Fr, c: Fr) -> Proof { Proof { a: G1A(g1(a)), b: G2A(g2(b)), c: G1A(g1(c)) } }

// -- verification by transactions --
use crate::send::Send;
use crate::settle::{template, Template};
use crate::with_acc;
use crate::world::*;
use elusiv::proof::verifier::{COMBINED_MILLER_LOOP_IXS, FINAL_EXPONENTIATION_IXS};
use elusiv::state::proof::VerificationAccount;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::sync::OnceLock;

/// a world with a verifying key for sends, whose trapdoor is known
pub struct Keyed { pub toxic: Toxic, pub w: World, pub child: Pubkey, pub t: &'static Template }

pub fn keyed() -> &'static Keyed {
    static T: OnceLock<Keyed> = OnceLock::new();
    T.get_or_init(|| {
        // (no two signals are exchangeable, none is without effect)
        let f = |i: u64| fr_from_le(&solana_program::hash::hash(&i.to_le_bytes()).to_bytes());
        let toxic = Toxic { alpha: f(0), beta: f(1), gamma: f(2), delta: f(3), ic: (0..15).map(|i| f(4 + i)).collect() };
        let t = template();
        let mut w = t.w.clone();
        let child = w.put_vkey(0, 14, Some(toxic.source())).unwrap();
        Keyed { toxic, w, child, t }
    })
}

/// The public signals of a send in the order of the circuit (send_quadra)
pub fn signals(v: &Send, hashed_inputs: B32) -> Vec<B32> {
    let num = |n: u64| { let mut b = [0u8; 32]; b[..8].copy_from_slice(&n.to_le_bytes()); b };
    let mut x: Vec<B32> = (0..4).map(|i| v.inputs.get(i).map(|p| p.1).unwrap_or([0; 32])).collect();
    x.extend((0..4).map(|i| v.inputs.get(i).and_then(|p| p.0).unwrap_or([0; 32])));
    x.extend([num(v.amount.wrapping_add(v.fee)), v.output, num(v.recent as u64), num(v.fee_version as u64), num(v.token as u64), hashed_inputs]);
    x
}

pub struct Job { pub send: Send, pub proof: Proof, pub fee_transferred: bool, pub proof_set: bool }

pub fn is_verified(w: &mut World, v: &Send) -> Option<bool> { with_acc!(w, v.account(), VerificationAccount, |a| a.get_is_verified().option()) }

/// Runs the computations of initialised verifications to their verdicts: interleaved, in transactions of varying composition
pub fn compute(s: &mut Src, w: &mut World, k: &Keyed, jobs: &mut [Job]) -> Result<Vec<bool>, String> {
    let steps: usize = jobs.iter().map(|j| j.send.prep_count() + COMBINED_MILLER_LOOP_IXS + FINAL_EXPONENTIATION_IXS).sum();
    let mut txs = 0;
    loop {
        let open: Vec<usize> = (0..jobs.len()).filter(|&i| is_verified(w, &jobs[i].send).is_none()).collect();
        if open.is_empty() { break }
        txs += 1;
        if txs > 8 * steps { return Err(format!("no verdict after {txs} transactions")) }
        let i = s.pick(&open);
        let j = &mut jobs[i];
        let (v, ofp) = (&j.send, j.send.ofp);
        // the fee and the proof can follow at any time before the pairing
        if !j.fee_transferred && s.chance(1, 4) {
            let ix = w.transfer_fee_ix(ofp, v.ofp_account, v.index, v.token);
            w.svm.tx(&[ix], &[ofp]).map_err(|e| format!("fee transfer: {e:?}"))?;
            j.fee_transferred = true;
            let ix = w.init_proof_ix(ofp, v.index, j.proof);
            w.svm.tx(&[ix], &[ofp]).map_err(|e| format!("proof: {e:?}"))?;
            j.proof_set = true;
            continue;
        }
        let c = w.compute_verification_ix(ofp, v.index, 0, &[k.child]);
        let other = jobs[s.pick(&open)].send.clone();
        let d = w.compute_verification_ix(other.ofp, other.index, 0, &[k.child]);
        let n = if s.chance(1, 12) { s.usize(1, 9) } else { 7 };
        let mixed = s.chance(1, 8);
        let ixs: Vec<Instruction> = (0..n).map(|q| if mixed && q != 6 { match s.below(3) { 0 => d.clone(), 1 => Instruction { program_id: svm::memo_id(), accounts: vec![], data: vec![] }, _ => Instruction { program_id: svm::compute_budget_id(), accounts: vec![], data: vec![0, 1] } } } else { c.clone() }).collect();
        let before: Vec<_> = jobs.iter().map(|j| w.svm.get(&j.send.account())).collect();
        let r = w.svm.tx(&ixs, &[]);
        if let Err(e) = r {
            // a computation which is finished, or waits for the proof, fails with the whole transaction
            for (q, j) in jobs.iter().enumerate() { if w.svm.get(&j.send.account()) != before[q] { return Err("a failed transaction changed an account".into()) } }
            if jobs.iter().all(|j| j.proof_set) && !mixed && n <= 7 {
                // the last call(s) of a computation: one by one
                let mut filler = vec![Instruction { program_id: svm::memo_id(), accounts: vec![], data: vec![] }; 6];
                filler.push(c.clone());
                w.svm.tx(&filler, &[]).map_err(|e2| format!("computation: {e:?}, {e2:?}"))?;
            } else if !jobs[i].fee_transferred {
                let j = &mut jobs[i];
                let v = &j.send;
                let ix = w.transfer_fee_ix(ofp, v.ofp_account, v.index, v.token);
                let ix2 = w.init_proof_ix(ofp, v.index, j.proof);
                w.svm.tx(&[ix], &[ofp]).map_err(|e| format!("fee transfer: {e:?}"))?;
                w.svm.tx(&[ix2], &[ofp]).map_err(|e| format!("proof: {e:?}"))?;
                j.fee_transferred = true;
                j.proof_set = true;
            }
        }
    }
    Ok(jobs.iter().map(|j| is_verified(w, &j.send).unwrap()).collect())
}
