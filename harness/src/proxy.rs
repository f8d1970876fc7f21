//! A foreign program that forwards to another program (cross-program invocation): accounts[0] is the program
use crate::world::*;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;

pub fn id() -> Pubkey { user("proxy-program") }

pub fn process(_: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let ix = Instruction {
        program_id: *accounts[0].key,
        accounts: accounts[1..].iter().map(|a| AccountMeta { pubkey: *a.key, is_signer: a.is_signer, is_writable: a.is_writable }).collect(),
        data: data.to_vec(),
    };
    solana_program::program::invoke(&ix, accounts)
}

/// the same instruction, invoked through the proxy
pub fn through(i: &Instruction) -> Instruction {
    let mut accounts = vec![r(i.program_id)];
    accounts.extend(i.accounts.iter().cloned());
    Instruction { program_id: id(), accounts, data: i.data.clone() }
}

/// a foreign program that accepts everything
pub fn accepting_id() -> Pubkey { user("another-program") }
pub fn accept(_: &Pubkey, _: &[AccountInfo], _: &[u8]) -> ProgramResult { Ok(()) }
