//! Property P09: a proof authorises exactly the send which the prover committed to.
//! Oracle: metamorphic relation - the prover proves a send, a warden submits one which differs in a single item (or not at all).
use elusiv::processor::ProofRequest;
use elusiv::state::proof::VerificationAccount;
use elusiv::state::storage::StorageAccount;
use elusiv::token::TOKENS;
use harness::groth::*;
use harness::poseidon::*;
use harness::prelude::*;
use harness::send::*;
use harness::settle::*;
use harness::world::*;
use solana_program::pubkey::Pubkey;

const ITEMS: [&str; 20] = ["amount", "fee", "output", "recent", "token", "nullifier", "nullifier order", "more nullifiers", "fewer nullifiers", "root", "recipient", "identifier", "reference", "iv", "owner", "kind", "metadata", "optional collector", "optional amount", "memo"];
const COUNT: u32 = 1 << 20;
const SIGNALS: usize = 10; // the first items are public signals, the others are contained in the hashed inputs

/// another request which differs in one item; None if that is not possible
fn alter(s: &mut Src, w: &mut World, v: &Send, item: &str, roots: &[B32]) -> Option<Send> {
    let mut m = v.clone();
    let flip = |s: &mut Src, b: &mut [u8]| { let i = s.below(b.len()); b[i] ^= 1 << s.below(8); };
    match item {
        "amount" => m.amount = if s.bool() { v.amount + 1 + s.below(1000) as u64 } else { v.amount.checked_sub(1 + s.below(1000) as u64)? },
        "fee" => m.fee = v.fee + 1 + s.below(100_000) as u64,
        "output" => { m.output = if s.bool() { gen_field(s) } else { let mut o = v.output; flip(s, &mut o[..31]); o } }
        "recent" => m.recent = if s.bool() { v.recent.checked_sub(1)? } else { v.recent + 1 },
        "token" => { m.token = s.pick(&[0u16, 1, 2, 5, 11]); if m.kind != Recipient::Ata || m.token == 0 { return None } m.ofp_account = acc_of(&m.ofp, m.token); m.optional.0 = v.optional.0; }
        "nullifier" => { let i = s.below(m.inputs.len()); m.inputs[i].1 = gen_field(s); }
        "nullifier order" => { if m.inputs.len() < 2 { return None } let i = s.usize(1, m.inputs.len() - 1); let t = m.inputs[0].1; m.inputs[0].1 = m.inputs[i].1; m.inputs[i].1 = t; }
        "more nullifiers" => { if m.inputs.len() == 4 { return None } m.inputs.push((None, gen_field(s))); }
        "fewer nullifiers" => { if m.inputs.len() == 1 { return None } m.inputs.pop(); }
        "root" => m.inputs[0].0 = Some(s.pick(roots)),
        "recipient" => match v.kind {
            Recipient::Wallet | Recipient::Ata => m.recipient = user("attacker"),
            Recipient::TokenAccount => { let k = user("attacker/token"); w.svm.put_token_account(k, TOKENS[v.token as usize].mint, user("attacker"), 0); m.recipient = k; }
            Recipient::Invalid => { m.recipient = user("attacker/none"); }
        },
        "identifier" => m.identifier = user("other identifier"),
        "reference" => m.reference = if v.reference.is_some() && s.bool() { None } else { Some(user("other reference")) },
        "iv" => flip(s, &mut m.iv),
        "owner" => flip(s, &mut m.owner),
        "kind" => {
            if v.token == 0 { return None }
            m.kind = if v.kind == Recipient::Ata { let k = v.recipient; if is_token_account(w, &k, v.token) { Recipient::TokenAccount } else { Recipient::Invalid } } else { Recipient::Ata };
        }
        "metadata" => flip(s, &mut m.metadata),
        "optional collector" => { let o = user("attacker/optional"); let k = acc_of(&o, v.token); if v.token == 0 { w.svm.airdrop(&k, SOL) } else { w.svm.put_token_account(k, TOKENS[v.token as usize].mint, o, 0) } m.optional.0 = k; }
        "optional amount" => m.optional.1 = if s.bool() { v.optional.1 + 1 } else { v.optional.1.checked_sub(1)? },
        "memo" => m.memo = match (&v.memo, s.below(4)) {
            (Some(x), 0) if !x.is_empty() => { let mut y = x.clone(); flip(s, &mut y); Some(y) }
            (Some(x), 1) if !x.is_empty() => None,
            (Some(x), 2) if !x.is_empty() => Some(x[..x.len() - 1].to_vec()),
            (Some(x), _) => { let mut y = x.clone(); y.push(s.u8()); Some(y) }
            (None, _) => Some(vec![s.u8()]),
        },
        _ => unreachable!(),
    }
    Some(m)
}

fn binding(s: &mut Src) -> Res {
    let k = keyed();
    let mut w = k.w.clone();
    let pool: Vec<B32> = (0..5).map(|_| gen_field(s)).collect();
    let mut v = gen_send(s, &mut w, 0, &pool, k.t);
    v.index = 0;
    let extra = if s.bool() { 0 } else { s.below(1_000_000) as u64 };
    if set_fee(&w, &mut v, extra).is_none() { return Ok(()) }
    // -- the user's proof --
    let xs = signals(&v, v.hashed_inputs());
    let (a, b) = (gen_fr(s), gen_fr(s));
    let pr = proof(a, b, k.toxic.solve(&xs, a, b));
    if w.clone().svm.tx(&v.init_ixs(&w), &[v.ofp]).is_err() { s.label("unacceptable request"); return Ok(()) }
    // -- what the warden submits --
    let item = s.below(ITEMS.len() + 5);
    let (m, hash, what) = match ITEMS.get(item) {
        None => (v.clone(), v.hashed_inputs(), "unaltered".to_string()),
        Some(name) => match alter(s, &mut w, &v, name, &k.t.roots) {
            None => { s.label("no alteration"); return Ok(()) }
            Some(m) if item < SIGNALS => { let h = m.hashed_inputs(); (m, h, name.to_string()) }
            Some(m) => if s.bool() { (m.clone(), v.hashed_inputs(), format!("{name}, hash of the user")) } else { let h = m.hashed_inputs(); (m, h, format!("{name}, hash of the warden")) },
        },
    };
    let altered = signals(&m, hash) != xs;
    let same = what == "unaltered";
    if item < SIGNALS && !altered { s.label("no alteration"); return Ok(()) }
    s.log(|| format!("{what}: token {} amount {} fee {} inputs {} kind {:?} memo {:?} pay {}", m.token, m.amount, m.fee, m.inputs.len(), m.kind, m.memo, m.solana_pay));
    let mut inputs = m.public_inputs();
    inputs.hashed_inputs = hash;
    let init = vec![
        w.init_verification_ix(m.ofp, m.index, 0, m.trees, ProofRequest::Send(inputs), m.duplicate(), m.identifier, false),
        w.transfer_fee_ix(m.ofp, m.ofp_account, m.index, m.token),
    ];
    let h = s.choices_hash();
    let r = w.svm.tx(&init, &[m.ofp]);
    if r.is_err() {
        check!(!same, "harness init", "{r:?}");
        s.label(format!("{what}: rejected at once"));
        return Ok(())
    }
    let mut jobs = [Job { send: m.clone(), proof: pr, fee_transferred: true, proof_set: false }];
    let i = w.init_proof_ix(m.ofp, m.index, pr);
    let r = w.svm.tx(&[i], &[m.ofp]);
    check!(r.is_ok(), "harness proof", "{r:?}");
    jobs[0].proof_set = true;
    let verdict = match compute(s, &mut w, k, &mut jobs) { Ok(v) => v[0], Err(e) => return fail("no verdict", e) };
    s.nontrivial(h);
    check!(verdict != altered, if altered { "binding" } else { "rejected" }, "{what}: proof of a send with {} public signals has verdict {verdict}", if altered { "other" } else { "the same" });
    // the accounts an attacker would need
    let fees = with_acc!(w, m.account(), VerificationAccount, |a| a.get_other_data());
    let fees = Fees { hash_lamports: fees.commitment_hash_fee.0, hash_token: fees.commitment_hash_fee_token, verification: fees.proof_verification_fee, network: fees.network_fee, subvention: fees.subvention, ata_rent: 0, ata_rent_token: fees.associated_token_account_rent };
    // (the tree may have grown meanwhile, up to its end)
    if s.bool() {
        let n = commitment_queue(&w).len() as u32;
        let (ptr, trees) = (s.pick(&[0u32, 1, 1000, COUNT - 40, COUNT - n - 1, COUNT - n, COUNT - 1, COUNT]), s.below(3) as u32);
        with_acc!(w, pda::<StorageAccount>(), StorageAccount, |a| { a.set_next_commitment_ptr(&ptr); a.set_trees_count(&trees); });
        s.label("moved pointer");
    }
    let ixs = m.finalize_ixs(&mut w, &fees, verdict);
    // what the finalization announces to the recipient's wallet
    if same && s.bool() {
        let mut d = m.finalize_data(&mut w);
        let at = d.commitment_index;
        let what = s.pick(&["total", "token", "earlier tree", "later tree", "later index", "far index", "earlier index"]);
        match what {
            "total" => d.total_amount = if s.bool() { d.total_amount.wrapping_add(1) } else { d.total_amount.wrapping_sub(1 + s.below(100) as u64) },
            "token" => d.token_id = (d.token_id + s.usize(1, 11) as u16) % 12,
            "earlier tree" => { if d.mt_index == 0 { return Ok(()) } d.mt_index -= 1 }
            "later tree" => { d.mt_index += s.usize(1, 3) as u32; if s.bool() { d.commitment_index = 0 } }
            "later index" => d.commitment_index += 1,
            "far index" => d.commitment_index = s.usize(at as usize + 1, COUNT as usize * 2) as u32,
            _ => { if at == 0 { return Ok(()) } d.commitment_index = s.below(at as usize) as u32 }
        }
        let (mt, index) = (d.mt_index, d.commitment_index);
        let i = w.finalize_send_ix(m.recipient, m.identifier, m.reference.unwrap_or(solana_program::sysvar::instructions::ID), m.ofp, m.index, d, m.memo.is_some());
        let mut other = ixs.clone();
        other[0] = i;
        let r = w.clone().svm.tx(&other, &[m.ofp]);
        // (a position before the commitment's own is only a worse start of the search)
        check!(r.is_ok() == (what == "earlier index"), &format!("announced: {what}"), "finalization which announces {what} ({mt}, {index}), the commitment being at index {at} or later: {r:?}");
        s.label(format!("announced {what}"));
    }
    let funds = |w: &World, k: &Pubkey| if m.token == 0 { w.svm.lamports(k) } else { w.svm.token_balance(k) };
    let to = m.actual_recipient(&w);
    let before = (funds(&w, &to), funds(&w, &m.optional.0));
    let r = w.svm.tx(&ixs, &[m.ofp]);
    if same {
        check!(r.is_ok(), "not settled", "a valid send cannot be finalised: {r:?}");
        s.label("settled");
    } else if verdict {
        check!(r.is_err(), &format!("settled: {}", what.split(',').next().unwrap()), "{what}: a send which differs from the proven one is settled");
        s.label(format!("{what}: not finalised"));
        // the proven send is not lost
        if !["metadata", "optional collector", "optional amount", "kind"].iter().any(|n| what.starts_with(n)) && m.kind == v.kind {
            let mut g = v.clone();
            g.solana_pay = m.solana_pay;
            let ixs = g.finalize_ixs(&mut w, &fees, true);
            let r = w.svm.tx(&ixs, &[m.ofp]);
            check!(r.is_ok(), "proven send", "{what}: the proven send cannot be finalised afterwards: {r:?}");
        }
    } else {
        if m.ofp != m.recipient && to != collector_acc(m.token) && m.optional.0 != m.ofp && to != m.ofp_account && m.optional.0 != m.ofp_account {
            check!((funds(&w, &to), funds(&w, &m.optional.0)) == before, "paid", "{what}: payment without valid proof ({r:?})");
        }
        s.label(format!("{what}: invalid"));
    }
    Ok(())
}

fn main() {
    kat();
    Suite::new("P09", "requests which passed initialisation and whose proof was verified; distinct by choices")
        .assume("the circuit's order of the public signals is the documented one; amount and fee are bound by their sum")
        .test("binding", 1500, 60000, binding)
        .main()
}
