//! Drives (parent) accounts of the program directly on byte buffers, outside of a transaction.
use elusiv_types::accounts::{ParentAccount, SizedAccount};
use solana_program::{account_info::AccountInfo, pubkey::Pubkey};

/// A parent account's data plus the data (config byte + inner) of each child account (`None` = not passed)
#[derive(Clone)]
pub struct Parent {
    pub data: Vec<u8>,
    pub children: Vec<Option<Vec<u8>>>,
}

impl Parent {
    pub fn new(size: usize, count: usize, child_size: usize, available: &[usize]) -> Self {
        let mut children = vec![None; count];
        for &i in available { children[i] = Some(vec![0; child_size]); }
        Parent { data: vec![0; size], children }
    }
}

pub fn key(i: usize) -> Pubkey {
    let mut b = [7u8; 32];
    b[..8].copy_from_slice(&(i as u64).to_le_bytes());
    Pubkey::new_from_array(b)
}

/// `with_parent!(parent, Type, |account| body)`
#[macro_export]
macro_rules! with_parent {
    ($p:expr, $ty:ident, |$a:ident| $body:expr) => {{
        let p: &mut $crate::acct::Parent = &mut $p;
        let keys: Vec<solana_program::pubkey::Pubkey> = (0..p.children.len()).map($crate::acct::key).collect();
        let owner = elusiv::id();
        let mut lamports = vec![1u64; p.children.len()];
        let n = p.children.len();
        let infos: Vec<Option<solana_program::account_info::AccountInfo>> = p.children.iter_mut().zip(lamports.iter_mut()).enumerate().map(|(i, (c, l))| {
            c.as_mut().map(|c| solana_program::account_info::AccountInfo::new(&keys[i], false, true, l, &mut c[..], &owner, false, 0))
        }).collect();
        assert_eq!(infos.len(), n);
        #[allow(unused_mut)]
        let mut $a = <$ty as elusiv_types::accounts::ParentAccount>::new_with_child_accounts(&mut p.data, infos.iter().map(|i| i.as_ref()).collect()).unwrap();
        $body
    }};
}

pub fn parent_for<'a, 'b, 't, P: ParentAccount<'a, 'b, 't>>(available: &[usize]) -> Parent
where P::Child: SizedAccount {
    Parent::new(P::SIZE, P::COUNT, <P::Child as SizedAccount>::SIZE, available)
}

#[allow(unused)]
fn _t(_: &AccountInfo) {}
