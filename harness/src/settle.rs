//! A deployed program with a small Merkle tree, and generated sends over it (settlement checks)
use crate::poseidon::*;
use crate::send::*;
use crate::tree::*;
use crate::world::*;
use elusiv::state::governor::PoolAccount;
use elusiv::token::TOKENS;
use pbt::Src;
use std::sync::OnceLock;

pub const WARDENS: [&str; 2] = ["warden-a", "warden-b"];

pub struct Template { pub w: World, pub roots: Vec<B32>, pub ptr: u32 }

pub fn template() -> &'static Template {
    static T: OnceLock<Template> = OnceLock::new();
    T.get_or_init(|| {
        let mut w = World::full(fee([5000, 50, 50, 1000, 1000, 300, 300]), &STORAGE_START_CHILDREN, &[0], &[0]);
        for n in WARDENS { w.fund(&user(n), 1_000_000 * SOL, 1_000_000_000_000); }
        w.fund(&user("stranger"), 1_000 * SOL, 0);
        let mut tree = Tree::default();
        let mut roots = vec![];
        for i in 0..5u64 {
            let leaf = fr_u64(77 + i);
            tree.insert(&[leaf]);
            w.enqueue(fr_to_mr(&leaf), [0; 17], 0, 0);
            w.crank(user(WARDENS[0]), 0);
            roots.push(fr_to_le(&tree.node(H, 0)));
        }
        // the storage and metadata child accounts are not needed any more
        for c in std::mem::take(&mut w.storage_children) { w.svm.accounts.remove(&child_key("storage", 0, c)); }
        w.svm.accounts.remove(&child_key("metadata", 0, 0));
        w.metadata_children.clear();
        w.put_vkey(0, 14, None);
        w.svm.airdrop(&pda::<PoolAccount>(), 1000 * SOL);
        Template { w, roots, ptr: 5 }
    })
}

pub fn gen_send(s: &mut Src, w: &mut World, i: usize, nullifiers: &[B32], t: &Template) -> Send {
    let token = s.pick(&[0u16, 1, 2, 5, 11]);
    let kind = if token == 0 { Recipient::Wallet } else { s.pick(&[Recipient::Ata, Recipient::TokenAccount, Recipient::Invalid]) };
    let recipient = match s.below(4) { 0 => user("recipient/shared"), 1 if kind == Recipient::Wallet || kind == Recipient::Ata => user(WARDENS[0]), _ => user(&format!("recipient/{i}")) };
    let recipient = match kind {
        Recipient::TokenAccount => {
            let k = user(&format!("token-account/{i}/{token}"));
            w.svm.put_token_account(k, TOKENS[token as usize].mint, recipient, s.below(3) as u64 * 1000);
            k
        }
        Recipient::Invalid => {
            let k = user(&format!("invalid/{i}"));
            match s.below(3) { 0 => {} 1 => w.svm.put_exempt(k, spl_token::ID, vec![0; 165]), _ => w.svm.put_token_account(k, TOKENS[if token == 1 { 2 } else { 1 }].mint, recipient, 5) };
            k
        }
        Recipient::Ata if s.bool() => { let a = ata(&recipient, token); if !w.svm.exists(&a) { w.svm.put_token_account(a, TOKENS[token as usize].mint, recipient, 10); } recipient }
        Recipient::Ata => { if s.chance(1, 6) { w.prefund(s, &ata(&recipient, token), 165); } recipient }
        _ => recipient,
    };
    let amount = match s.below(5) { 0 if kind != Recipient::Ata => 0, 1 => rent_exempt(0), _ => s.range(if token == 0 { rent_exempt(0) } else { 1_000 }, 3 * SOL) };
    let opt_amount = if amount > 0 && s.bool() {
        // an optional fee that consumes the (almost) complete amount leaves nothing for the recipient
        if token != 0 && kind != Recipient::Ata && s.chance(1, 4) { amount - s.pick(&[0u64, 0, 1]) } else { s.range(0, amount / 3) }
    } else { 0 };
    let opt_owner = match s.below(3) { 0 => user("stranger"), 1 => user(WARDENS[1]), _ => user(&format!("optional/{i}")) };
    let opt = acc_of(&opt_owner, token);
    if token == 0 { if !w.svm.exists(&opt) { w.svm.airdrop(&opt, SOL); } } else if !w.svm.exists(&opt) { w.svm.put_token_account(opt, TOKENS[token as usize].mint, opt_owner, 0); }
    let n = s.usize(1, 4);
    let at = s.below(nullifiers.len());
    let inputs = (0..n).map(|k| (if k == 0 { Some(s.pick(&t.roots)) } else { None }, nullifiers[(at + k) % nullifiers.len()])).collect();
    let ofp = user(s.pick(&WARDENS));
    Send {
        token, amount, fee: 0, optional: (opt, opt_amount), metadata: s.bytes::<17>(), inputs,
        output: if s.chance(1, 6) { fr_to_le(&fr_u64(1234)) } else { gen_field(s) },
        recent: t.ptr - s.below(3) as u32, kind, recipient,
        solana_pay: amount > 0 && s.chance(1, 3),
        memo: if s.chance(1, 3) {
            if s.chance(1, 3) { let (n, x) = (s.usize(40, 600), s.u8()); Some((0..n).map(|i| x.wrapping_add((i * 7) as u8)).collect()) } else { Some((0..s.below(40)).map(|_| s.u8()).collect()) }
        } else { None },
        identifier: user("identifier"), reference: if s.bool() { Some(user("reference")) } else { None },
        iv: s.bytes::<32>(), owner: s.bytes::<32>(), fee_version: 0,
        ofp, ofp_account: acc_of(&ofp, token), index: s.below(3) as u8, skip_pda: false, trees: [0, 1],
    }
}

/// the fee (which is a public input) determines the number of transactions that prepare the public inputs, and thereby the minimum fee
pub fn set_fee(w: &World, v: &mut Send, extra: u64) -> Option<Fees> {
    for _ in 0..20 {
        let f = fees(w, v, 0)?;
        if v.fee == f.min_fee() + extra { return Some(f) }
        v.fee = f.min_fee() + extra;
    }
    None
}

pub fn zero_g1() -> elusiv::fields::G1A { elusiv::fields::G1A(ark_bn254::G1Affine::default()) }
pub fn zero_g2() -> elusiv::fields::G2A { elusiv::fields::G2A(ark_bn254::G2Affine::default()) }

