//! Reference Merkle tree (Poseidon, height 20, sparse)
use crate::poseidon::*;
use ark_bn254::Fr;
use std::collections::HashMap;
use std::sync::OnceLock;

pub const H: usize = 20;

/// default node per height above the leaves, derived with the reference hash from the documented empty commitment
pub fn empty() -> &'static Vec<Fr> {
    static E: OnceLock<Vec<Fr>> = OnceLock::new();
    E.get_or_init(|| {
        // the empty leaf is Poseidon(0, 0)
        let mut v = vec![hash2(fr_u64(0), fr_u64(0))];
        for i in 0..H { let x = hash2(v[i], v[i]); v.push(x); }
        v
    })
}

/// reference tree: nodes by (height above leaves, index); everything else is empty
#[derive(Default, Clone)]
pub struct Tree { pub nodes: HashMap<(usize, usize), Fr>, pub roots: Vec<[u8; 32]>, pub next: usize }
impl Tree {
    pub fn node(&self, h: usize, i: usize) -> Fr { self.nodes.get(&(h, i)).copied().unwrap_or(empty()[h]) }
    pub fn insert(&mut self, leaves: &[Fr]) {
        let (mut lo, mut hi) = (self.next, self.next + leaves.len() - 1);
        for (i, l) in leaves.iter().enumerate() { self.nodes.insert((0, self.next + i), *l); }
        for h in 1..=H {
            lo >>= 1; hi >>= 1;
            for i in lo..=hi { let v = hash2(self.node(h - 1, 2 * i), self.node(h - 1, 2 * i + 1)); self.nodes.insert((h, i), v); }
        }
        self.next += leaves.len();
        self.roots.push(fr_to_mr(&self.node(H, 0)));
    }
    pub fn opening(&self, i: usize) -> Vec<[u8; 32]> { (0..H).map(|h| fr_to_mr(&self.node(h, (i >> h) ^ 1))).collect() }
}
