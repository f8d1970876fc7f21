//! Generators shared by the checks of the client's view of the program.
// the model of the program, compiled against the client's view of it
#[path = "../../harness/src/acct.rs"]
pub mod acct;
#[path = "../../harness/src/groth.rs"]
pub mod groth;
#[path = "../../harness/src/poseidon.rs"]
pub mod poseidon;
#[path = "../../harness/src/proxy.rs"]
pub mod proxy;
#[path = "../../harness/src/send.rs"]
pub mod send;
#[path = "../../harness/src/settle.rs"]
pub mod settle;
#[path = "../../harness/src/stages.rs"]
pub mod stages;
#[path = "../../harness/src/tree.rs"]
pub mod tree;
#[path = "../../harness/src/world.rs"]
pub mod world;
use pbt::*;
use elusiv::processor::{BaseCommitmentHashRequest, ProofRequest};
use elusiv::types::*;
use solana_program::pubkey::Pubkey;

pub fn raw(s: &mut Src) -> RawU256 { RawU256::new(if s.chance(1, 8) { [255; 32] } else { s.bytes::<32>() }) }

pub fn join_split(s: &mut Src) -> JoinSplitPublicInputs {
    let n = s.usize(1, 4);
    let mut roots = 0;
    let input_commitments = (0..n).map(|i| {
        let root = (i == 0 || (roots < 2 && s.bool())).then(|| { roots += 1; raw(s) });
        InputCommitment { root, nullifier_hash: raw(s) }
    }).collect();
    JoinSplitPublicInputs {
        input_commitments,
        output_commitment: raw(s),
        recent_commitment_index: s.u64_edge() as u32,
        fee_version: s.u64_edge() as u32,
        amount: s.u64_edge() >> 1,
        fee: s.u64_edge() >> 1,
        optional_fee: OptionalFee { collector: Pubkey::new_from_array(s.bytes()), amount: s.u64_edge() },
        token_id: s.u64_edge() as u16,
        metadata: s.bytes::<17>(),
    }
}

pub fn send(s: &mut Src) -> SendPublicInputs {
    SendPublicInputs { join_split: join_split(s), recipient_is_associated_token_account: s.bool(), solana_pay_transfer: s.bool(), hashed_inputs: s.bytes() }
}

pub fn migrate(s: &mut Src) -> MigratePublicInputs {
    let mut j = join_split(s);
    j.input_commitments.truncate(1);
    MigratePublicInputs { join_split: j, current_nsmt_root: raw(s), next_nsmt_root: raw(s) }
}

pub fn request(s: &mut Src) -> ProofRequest { if s.chance(1, 3) { ProofRequest::Migrate(migrate(s)) } else { ProofRequest::Send(send(s)) } }

pub fn base_request(s: &mut Src) -> BaseCommitmentHashRequest {
    BaseCommitmentHashRequest {
        base_commitment: raw(s), recent_commitment_index: s.u64_edge() as u32, amount: s.u64_edge(), token_id: s.u64_edge() as u16,
        commitment: raw(s), fee_version: s.u64_edge() as u32, min_batching_rate: s.u64_edge() as u32,
    }
}

/// The documented wire format of a request, written without the program's own serialization
pub mod wire {
    use super::*;
    pub fn join_split(j: &JoinSplitPublicInputs) -> Vec<u8> {
        let mut b = (j.input_commitments.len() as u32).to_le_bytes().to_vec();
        for c in &j.input_commitments {
            match &c.root { None => b.push(0), Some(r) => { b.push(1); b.extend(r.skip_mr()); } }
            b.extend(c.nullifier_hash.skip_mr());
        }
        b.extend(j.output_commitment.skip_mr());
        b.extend(j.recent_commitment_index.to_le_bytes());
        b.extend(j.fee_version.to_le_bytes());
        b.extend(j.amount.to_le_bytes());
        b.extend(j.fee.to_le_bytes());
        b.extend(j.optional_fee.collector.to_bytes());
        b.extend(j.optional_fee.amount.to_le_bytes());
        b.extend(j.token_id.to_le_bytes());
        b.extend(j.metadata);
        b
    }
    pub fn request(r: &ProofRequest) -> Vec<u8> {
        match r {
            ProofRequest::Send(p) => {
                let mut b = vec![0];
                b.extend(join_split(&p.join_split));
                b.push(p.recipient_is_associated_token_account as u8);
                b.push(p.solana_pay_transfer as u8);
                b.extend(p.hashed_inputs);
                b
            }
            ProofRequest::Migrate(p) => {
                let mut b = vec![1];
                b.extend(join_split(&p.join_split));
                b.extend(p.current_nsmt_root.skip_mr());
                b.extend(p.next_nsmt_root.skip_mr());
                b
            }
        }
    }
    pub fn base_request(r: &BaseCommitmentHashRequest) -> Vec<u8> {
        let mut b = r.base_commitment.skip_mr().to_vec();
        b.extend(r.recent_commitment_index.to_le_bytes());
        b.extend(r.amount.to_le_bytes());
        b.extend(r.token_id.to_le_bytes());
        b.extend(r.commitment.skip_mr());
        b.extend(r.fee_version.to_le_bytes());
        b.extend(r.min_batching_rate.to_le_bytes());
        b
    }
}
