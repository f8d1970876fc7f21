//! Property P11: settling a private send moves exactly the prescribed amounts, at most once per verification and per nullifier,
//! and nothing else moves funds of the pool or the fee collector, whatever transactions are sent in whatever order.
use elusiv::state::fee::FeeAccount;
use elusiv::state::governor::{FeeCollectorAccount, GovernorAccount, PoolAccount};
use elusiv::state::nullifier::NullifierAccount;
use elusiv::state::proof::{VerificationAccount, VerificationState};
use elusiv::state::storage::StorageAccount;
use elusiv::token::TOKENS;
use elusiv_types::SizedAccount;
use elusiv_types::ElusivOption;
use harness::poseidon::*;
use harness::prelude::*;
use harness::send::*;
use harness::settle::*;
use harness::world::*;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use solana_program::system_instruction;
use std::collections::{BTreeMap, BTreeSet};

/// one verification of the history
struct V { s: Send, fees: Option<Fees>, paid: bool }

struct Sim {
    w: World,
    vs: Vec<V>,
    spent: BTreeMap<(u32, B32), usize>,
    queue: Vec<(B32, [u8; 17])>,
    extra: Vec<Pubkey>,
}

fn name(m: &[V]) -> impl Fn(&Pubkey) -> String + '_ {
    move |k: &Pubkey| {
        for (n, p) in [("pool", pda::<PoolAccount>()), ("fee-collector", pda::<FeeCollectorAccount>()), ("stranger", user("stranger")), (WARDENS[0], user(WARDENS[0])), (WARDENS[1], user(WARDENS[1]))] {
            if *k == p { return n.into() }
            for t in 1..TOKENS.len() as u16 { if *k == ata(&p, t) { return format!("{n}'s token account") } }
        }
        for (i, v) in m.iter().enumerate() {
            if *k == v.s.account() { return format!("verification account #{i}") }
            if *k == v.s.duplicate() { return format!("nullifier-duplicate account #{i}") }
            if *k == v.s.recipient_account() { return format!("recipient #{i}") }
            if *k == v.s.optional.0 { return format!("optional fee collector #{i}") }
        }
        k.to_string()
    }
}

/// runs a transaction and checks that exactly the funds moved which the observed state transitions prescribe
fn exec(s: &mut Src, m: &mut Sim, what: &str, ixs: &[Instruction], plain: &Deltas) -> Result<bool, Fail> {
    let before = balances(&m.w);
    let states: Vec<_> = (0..m.vs.len()).map(|i| { let v = m.vs[i].s.clone(); state(&mut m.w, &v) }).collect();
    let rents: Vec<_> = m.vs.iter().map(|v| (m.w.svm.lamports(&v.s.account()), m.w.svm.lamports(&v.s.duplicate()))).collect();
    let created: Vec<Deltas> = m.vs.iter().enumerate().map(|(i, v)| match &v.fees {
        Some(f) => {
            if states[i].as_ref().map(|x| x.1 == Some(false)).unwrap_or(false) { expected_forfeit(&v.s, f, 0) } else { expected_payout(&m.w, &v.s, f, 0) }
        }
        None => Deltas::default(),
    }).collect();
    let r = m.w.svm.tx(ixs, &[user(WARDENS[0]), user(WARDENS[1]), user("stranger")]);
    s.log(|| format!("{what} ({} instructions) -> {}", ixs.len(), match &r { Ok(()) => "ok".into(), Err(e) => format!("{e:?}") }));
    let after = balances(&m.w);
    if r.is_err() {
        check!(before == after, "failed-tx", "harness: failed transaction changed balances");
        return Ok(false);
    }
    let queued = m.queue.len();
    let mut want = plain.clone();
    let mut closed_accounts = BTreeSet::new();
    for i in 0..m.vs.len() {
        let v = m.vs[i].s.clone();
        let now = state(&mut m.w, &v);
        // several specifications can share one verification account; the account belongs to the one that was initialised
        if m.vs[i].fees.is_none() { continue }
        let was = &states[i];
        let was_open = matches!(was, Some((st, _)) if *st != VerificationState::Closed);
        let is_open = matches!(&now, Some((st, _)) if *st != VerificationState::Closed);
        if was_open && !is_open && closed_accounts.insert(v.account()) {
            let verified = was.as_ref().unwrap().1;
            check!(verified.is_some(), "unverified-payout", "verification #{i} was settled before its proof was decided");
            want.merge(&created[i]);
            let f = m.vs[i].fees.take().unwrap();
            // the closed accounts' lamports (including what was added during this transaction) go to the beneficiary
            let beneficiary = if verified == Some(true) { v.ofp } else { pda::<FeeCollectorAccount>() };
            let mut closing = vec![(v.account(), rents[i].0)];
            if !v.skip_pda { closing.push((v.duplicate(), rents[i].1)); }
            for (k, rent) in closing {
                let c = rent as i128 + plain.0.get(&(k, 0)).copied().unwrap_or(0) - m.w.svm.lamports(&k) as i128;
                check!(c >= rent as i128, "rent", "{what}: only {c} of {rent} lamports of a closed account were returned");
                want.mv(k, beneficiary, 0, c as u64);
            }
            if verified == Some(true) {
                check!(!m.vs[i].paid, "double-payout", "verification #{i} was paid twice");
                m.vs[i].paid = true;
                for (_, n) in &v.inputs {
                    if let Some(j) = m.spent.insert((v.trees[0], *n), i) { fail("double-spend", format!("the nullifier of send #{j} was spent again by #{i}"))?; }
                }
                m.queue.push((fr_to_mr(&fr_from_le(&v.output)), v.metadata));
                s.label(&format!("paid {}{:?}{}{}", if v.token == 0 { "lamports " } else { "token " }, v.kind, if v.solana_pay { " solana-pay" } else { "" }, if v.optional.1 > 0 { " optional-fee" } else { "" }));
            } else { s.label("forfeited"); }
            let _ = f;
        }
    }
    // each nullifier is spent in its tree, and no other is
    if !closed_accounts.is_empty() {
        for i in 0..m.vs.len() {
            let v = m.vs[i].s.clone();
            for (_, n) in &v.inputs { for t in 0..2 { if m.w.svm.exists(&child_key("nullifier", t, 0)) {
                let (has, want) = (in_tree(m, t, n), m.spent.contains_key(&(t, *n)));
                check!(has == want, "tree", "{what}: a nullifier of #{i} (tree {}) is {}spent in tree {t}", v.trees[0], if has { "" } else { "not " });
            } } }
        }
    }
    if let Some(d) = difference(&before, &after, &want, name(&m.vs)) { fail("funds", format!("{what}: {d}"))?; }
    let q: Vec<_> = commitment_queue(&m.w).iter().map(|c| c.0).collect();
    // (several settlements of one transaction: in the order of the transaction)
    m.queue[queued..].sort_by_key(|c| q.iter().position(|x| *x == c.0));
    check!(q == m.queue.iter().map(|c| c.0).collect::<Vec<_>>(), "queue", "{what}: {} commitments queued, expected {} (the output commitments of the paid sends in order)", q.len(), m.queue.len());
    check!(metadata_queue(&m.w) == m.queue.iter().map(|c| c.1).collect::<Vec<_>>(), "queue", "{what}: metadata queue differs");
    Ok(true)
}

fn init(s: &mut Src, m: &mut Sim, i: usize) -> Res {
    let v = m.vs[i].s.clone();
    if m.vs[i].fees.is_some() || m.vs[i].paid || m.w.opened(&v.account()) { return Ok(()) }
    let Some(f) = fees(&m.w, &v, 0) else { return Ok(()) };
    let unreceivable = v.token == 0 && v.amount > 0 && v.amount - v.optional.1 < rent_exempt(0) || v.kind == Recipient::Ata && v.amount < f.ata_rent_token + v.optional.1;
    let mut v = v;
    let Some(f) = set_fee(&m.w, &mut v, s.pick(&[0u64, 0, 0, 1, 5000])) else { return Ok(()) };
    v.skip_pda = m.w.opened(&v.duplicate());
    if s.chance(1, 12) { m.w.prefund(s, &v.account(), VerificationAccount::SIZE); }
    if s.chance(1, 12) { m.w.prefund(s, &v.duplicate(), elusiv::state::proof::NullifierDuplicateAccount::SIZE); }
    m.vs[i].s = v.clone();
    let mut d = expected_fee_transfer(&v, &f);
    let missing = |k: &Pubkey, size: usize| rent_exempt(size).saturating_sub(m.w.svm.lamports(k));
    let mut rent = missing(&v.account(), VerificationAccount::SIZE);
    d.add(v.account(), 0, rent);
    if !v.skip_pda {
        let dup = missing(&v.duplicate(), elusiv::state::proof::NullifierDuplicateAccount::SIZE);
        d.add(v.duplicate(), 0, dup);
        rent += dup;
    }
    d.sub(v.ofp, 0, rent);
    let ixs = v.init_ixs(&m.w);
    let spent = v.inputs.iter().any(|(_, n)| m.spent.contains_key(&(v.trees[0], *n)));
    if exec(s, m, &format!("init #{i}"), &ixs, &d)? {
        check!(!unreceivable, "unreceivable", "a send of {} (optional fee {}) is accepted although its recipient account could not be created with it", v.amount, v.optional.1);
        check!(!spent, "spent-accepted", "a verification with an already spent nullifier was initialised");
        m.vs[i].fees = Some(f);
    } else { s.label("init rejected"); }
    Ok(())
}

fn too_low_fee(s: &mut Src, m: &mut Sim, i: usize) -> Res {
    let mut v = m.vs[i].s.clone();
    if m.vs[i].fees.is_some() || m.w.opened(&v.account()) || m.w.opened(&v.duplicate()) { return Ok(()) }
    let Some(f) = fees(&m.w, &v, 0) else { return Ok(()) };
    let short = s.pick(&[1u64, 2, 1000]);
    if f.min_fee() < short { return Ok(()) }
    v.fee = f.min_fee() - short;
    let f = fees(&m.w, &v, 0).unwrap();
    if v.fee >= f.min_fee() { return Ok(()) }
    let ixs = v.init_ixs(&m.w);
    check!(m.w.svm.clone().tx(&ixs, &[v.ofp]).is_err(), "fee", "a fee of {} is accepted although {} is required", v.fee, f.min_fee());
    Ok(())
}

fn proof(s: &mut Src, m: &mut Sim, i: usize) -> Res {
    let v = m.vs[i].s.clone();
    if m.vs[i].fees.is_none() { return Ok(()) }
    let mut ixs = vec![m.w.init_proof_ix(v.ofp, v.index, elusiv::types::Proof { a: zero_g1(), b: zero_g2(), c: zero_g1() })];
    if s.chance(1, 8) { ixs.push(ixs[0].clone()); }
    exec(s, m, &format!("proof #{i}"), &ixs, &Deltas::default())?;
    // the verification computation is decided elsewhere (P08), its result is written here
    if let Some((VerificationState::ProofSetup, None)) = state(&mut m.w, &v) {
        let ok = !s.chance(1, 5);
        with_acc!(m.w, v.account(), VerificationAccount, |a| a.set_is_verified(&ElusivOption::Some(ok)));
    }
    Ok(())
}

fn finalize(s: &mut Src, m: &mut Sim, i: usize) -> Res {
    let v = m.vs[i].s.clone();
    let Some(f) = m.vs[i].fees.clone() else { return Ok(()) };
    let st = state(&mut m.w, &v);
    let verified = st.as_ref().and_then(|x| x.1).unwrap_or(true);
    let ixs = v.finalize_ixs(&mut m.w, &f, verified);
    let fresh = v.inputs.iter().all(|(_, n)| !m.spent.contains_key(&(v.trees[0], *n)));
    let dup_alive = m.w.opened(&v.duplicate());
    let r = exec(s, m, &format!("finalize #{i}"), &ixs, &Deltas::default())?;
    let ready = matches!(&st, Some((VerificationState::ProofSetup, Some(_))));
    let first_use = v.inputs.iter().all(|(_, n)| !in_tree(m, v.trees[0], n));
    if ready && dup_alive && (!verified || fresh && first_use) {
        check!(r, "stuck", "the settlement of send #{i} ({:?}, valid: {verified}) fails", v.kind);
        // a forfeited send can be sent again, the output commitment of a paid one cannot
        let mut again = m.w.clone();
        let mut v = v;
        if verified { v.inputs[0].1 = fr_to_le(&fr_u64(0x1234567 + s.u8() as u64)); v.index ^= 16; }
        let tree = v.trees[0];
        let free = |n: &B32| !m.spent.contains_key(&(tree, *n));
        let Some(f) = set_fee(&again, &mut v, 0) else { return Ok(()) };
        let unreceivable = v.token == 0 && v.amount > 0 && v.amount - v.optional.1 < rent_exempt(0) || v.kind == Recipient::Ata && v.amount < f.ata_rent_token + v.optional.1;
        if unreceivable || !v.inputs.iter().all(|(_, n)| free(n)) || again.opened(&v.account()) || m.vs.iter().enumerate().any(|(j, o)| j != i && o.s.output == v.output) { return Ok(()) }
        v.skip_pda = again.opened(&v.duplicate());
        let ixs = v.init_ixs(&again);
        let r = again.svm.tx(&ixs, &[v.ofp]);
        s.label(if verified { "same output again" } else { "forfeited send again" });
        check!(r.is_ok() == !verified, "again", "after the {} of a send, another one with the same output commitment is {}: {r:?}", if verified { "payout" } else { "forfeiture" }, if verified { "accepted" } else { "rejected" });
    }
    Ok(())
}

/// two settlements in one transaction
fn pair(s: &mut Src, m: &mut Sim, i: usize) -> Res {
    let j = s.below(m.vs.len());
    let (Some(f), Some(g)) = (m.vs[i].fees.clone(), m.vs[j].fees.clone()) else { return Ok(()) };
    if i == j { return Ok(()) }
    let (a, b) = (m.vs[i].s.clone(), m.vs[j].s.clone());
    let mut ixs = a.finalize_ixs(&mut m.w, &f, true);
    let pay = a.pay_ix(&m.w, &f).is_some();
    let without = pay && s.bool();
    if without { ixs.pop(); }
    ixs.append(&mut b.finalize_ixs(&mut m.w, &g, true));
    s.label("pair");
    exec_chaos(s, m, i, &format!("finalize #{i} and #{j}{}", if without { " with one transfer to the recipient" } else { "" }), &ixs, Deltas::default())
}

fn in_tree(m: &mut Sim, tree: u32, n: &B32) -> bool {
    let mut p = harness::acct::Parent { data: m.w.svm.data(&pda_at::<NullifierAccount>(tree).0).to_vec(), children: vec![None; 16] };
    p.children[0] = Some(m.w.svm.data(&child_key("nullifier", tree, 0)).to_vec());
    let k = fr_to_mr(&fr_from_le(n));
    with_parent!(p, NullifierAccount, |a| !a.can_insert_nullifier_hash(k).unwrap())
}

/// arbitrary transactions over the settlement instructions
fn chaos(s: &mut Src, m: &mut Sim, i: usize) -> Res {
    let v = m.vs[i].s.clone();
    let Some(f) = m.vs[i].fees.clone() else { return Ok(()) };
    let mut ixs = v.finalize_ixs(&mut m.w, &f, true);
    let plain = Deltas::default();
    let mut what = vec![];
    for _ in 0..s.usize(1, 3) {
        let n = ixs.len();
        match s.below(10) {
            0 if n > 1 => { let k = s.below(n); ixs.remove(k); what.push(format!("drop {k}")); }
            1 => { let k = s.below(n); let x = ixs[k].clone(); let j = s.below(n + 1); ixs.insert(j, x); what.push(format!("repeat {k} at {j}")); }
            2 if n > 1 => { let (a, b) = (s.below(n), s.below(n)); ixs.swap(a, b); what.push(format!("swap {a} {b}")); }
            3 => {
                // keep an account alive that is about to be closed
                let k = if s.bool() { v.account() } else { v.duplicate() };
                let l = 10 * SOL;
                let j = s.below(n + 1);
                ixs.insert(j, system_instruction::transfer(&user("stranger"), &k, l));
                if s.bool() { let x = v.transfer_ix(&m.w); ixs.push(x); }
                what.push(format!("revive at {j}"));
                s.label("revive");
            }
            4 => {
                // different accounts
                let k = s.below(n);
                let n_acc = ixs[k].accounts.len();
                if n_acc > 0 && ixs[k].program_id == elusiv::id() {
                    let a = s.below(n_acc);
                    let keys = [user("stranger"), pda::<PoolAccount>(), v.ofp, user(WARDENS[1]), v.optional.0, m.vs[0].s.recipient_account(), m.vs[m.vs.len() - 1].s.account(), v.duplicate()];
                    ixs[k].accounts[a].pubkey = s.pick(&keys);
                    what.push(format!("replace account {a} of {k}"));
                }
            }
            5 => { let k = s.below(n); let d = &mut ixs[k].data; if !d.is_empty() { let j = s.below(d.len()); d[j] = d[j].wrapping_add(s.pick(&[1u8, 255, 128])); } what.push(format!("change data of {k}")); }
            6 => {
                // the same for another verification in one transaction
                let j = s.below(m.vs.len());
                if j != i { if let Some(g) = m.vs[j].fees.clone() { let w = m.vs[j].s.clone(); let mut o = w.finalize_ixs(&mut m.w, &g, true); if s.bool() { if v.pay_ix(&m.w, &f).is_some() && s.bool() { ixs.pop(); } ixs.append(&mut o); } else { let at = s.below(n + 1); ixs.splice(at..at, o); } what.push(format!("with #{j}")); s.label("two sends in one transaction"); } }
            }
            8 => {
                // the payment is redirected: both the wallet and its account are another's
                let to = user(s.pick(&["stranger", WARDENS[0], WARDENS[1], "recipient"]));
                let from = [v.recipient, v.recipient_account()];
                for x in ixs.iter_mut() {
                    if s.bool() {
                        for a in x.accounts.iter_mut() { if a.pubkey == from[1] { a.pubkey = acc_of(&to, v.token); } else if a.pubkey == from[0] { a.pubkey = to; } }
                    }
                }
                what.push(format!("redirected to {to}"));
                s.label("redirected");
            }
            7 => { let x = v.insert_ix(&m.w); let j = s.below(n + 1); ixs.insert(j, x); what.push("extra nullifier insertion".into()); }
            _ => { for j in 0..m.vs.len() { if j != i && m.vs[j].fees.is_some() { let x = m.vs[j].s.transfer_ix(&m.w); ixs.push(x); what.push(format!("transfer of #{j}")); } } }
        }
    }
    m.extra.push(v.account());
    // lamports from solana-pay transfers that are not part of a settlement
    exec_chaos(s, m, i, &what.join(", "), &ixs, plain)
}

/// plain System/Token transfers of the fee payer (Solana Pay) are accounted as such: the settlement itself then only moves the
/// amount to the fee payer
fn exec_chaos(s: &mut Src, m: &mut Sim, i: usize, what: &str, ixs: &[Instruction], mut plain: Deltas) -> Res {
    let mut pays = 0;
    for x in ixs {
        if x.program_id == solana_program::system_program::ID {
            let l = u64::from_le_bytes(x.data[4..12].try_into().unwrap_or([0; 8]));
            plain.mv(x.accounts[0].pubkey, x.accounts[1].pubkey, 0, l);
            if x.accounts[0].pubkey != user("stranger") { pays += 1; }
        } else if x.program_id == spl_token::ID && x.data.len() == 9 {
            let l = u64::from_le_bytes(x.data[1..].try_into().unwrap());
            let t = m.vs.iter().find(|v| v.s.ofp_account == x.accounts[0].pubkey).map(|v| v.s.token).unwrap_or(0);
            plain.mv(x.accounts[0].pubkey, x.accounts[1].pubkey, t, l);
            pays += 1;
        }
    }
    // (each settled Solana Pay send contains its own pay instruction)
    let open: Vec<usize> = (0..m.vs.len()).filter(|&j| m.vs[j].fees.is_some()).collect();
    let fees_before: Vec<_> = open.iter().map(|&j| m.vs[j].fees.clone()).collect();
    let w0 = m.w.clone();
    let before = m.vs.iter().map(|v| v.paid).collect::<Vec<_>>();
    // first run on a copy to learn which sends are settled
    let mut probe = m.w.clone();
    if probe.svm.tx(ixs, &[user(WARDENS[0]), user(WARDENS[1]), user("stranger")]).is_ok() {
        let mut settled = 0;
        // not modelled: several sends of one transaction that each would create the same token account
        let mut creating = BTreeSet::new();
        for &j in &open { let v = m.vs[j].s.clone(); if v.creates_ata(&m.w) && !probe.opened(&v.account()) && !creating.insert(v.recipient_account()) { return Ok(()) } }
        for (k, &j) in open.iter().enumerate() {
            let v = m.vs[j].s.clone();
            let was = state(&mut m.w, &v);
            let now = state(&mut probe, &v);
            let gone = |x: &Option<(VerificationState, Option<bool>)>| !matches!(x, Some((st, _)) if *st != VerificationState::Closed);
            if !gone(&was) && gone(&now) && was.unwrap().1 == Some(true) && v.solana_pay && v.amount > 0 {
                let f = fees_before[k].as_ref().unwrap();
                let n = v.received(&w0, f);
                plain.mv(v.actual_recipient(&w0), if v.token == 0 { v.ofp } else { v.ofp_account }, v.token, n);
                settled += 1;
            }
        }
        check!(settled <= pays, "solana-pay-shared", "{settled} Solana Pay sends were settled with {pays} transfers to their recipients");
    }
    let _ = (before, i);
    exec(s, m, what, ixs, &plain)?;
    Ok(())
}

fn second_tree(w: &mut World, t: &Template) {
    w.enable_nullifier_child(1, 0);
    with_acc!(w, pda::<StorageAccount>(), StorageAccount, |a| a.set_trees_count(&1));
    let root = fr_to_mr(&fr_from_le(t.roots.last().unwrap()));
    with_acc!(w, pda_at::<NullifierAccount>(0).0, NullifierAccount, |a| a.set_root(&root));
}

fn history(s: &mut Src) -> Res {
    let t = template();
    let mut w = t.w.clone();
    let nullifiers: Vec<B32> = (0..6).map(|_| gen_field(s)).collect();
    for (i, a) in nullifiers.iter().enumerate() { if nullifiers[..i].contains(a) { return Ok(()) } }
    let k = s.usize(1, 3);
    let vs: Vec<V> = (0..k).map(|i| V { s: gen_send(s, &mut w, i, &nullifiers, t), fees: None, paid: false }).collect();
    let mut vs = vs;
    for i in 1..k {
        // twins: the same payment again with other commitments
        if s.chance(1, 3) {
            let t = vs[0].s.clone();
            let v = &mut vs[i].s;
            *v = Send { inputs: vec![(t.inputs[0].0, nullifiers[(s.below(3) + 3) % 6])], output: gen_field(s), index: t.index + i as u8, memo: None, ..t };
            s.label("twin");
        }
    }
    if s.chance(1, 3) {
        // the first tree is closed, the same commitments are in the second one
        second_tree(&mut w, t);
        for v in vs.iter_mut() { if s.bool() { v.s.trees = [1, 0]; } else { v.s.trees = [0, 1]; v.s.inputs[0].0 = t.roots.last().copied(); } }
        s.label("two trees");
    }
    let mut m = Sim { w, vs, spent: BTreeMap::new(), queue: vec![], extra: vec![] };
    if s.bool() { for i in 0..k { init(s, &mut m, i)?; proof(s, &mut m, i)?; } }
    for _ in 0..s.usize(3, 14) {
        let i = s.below(k);
        match s.weighted(&[3, 3, 3, 3, 1, 2, 1]) {
            0 => init(s, &mut m, i)?,
            1 => proof(s, &mut m, i)?,
            2 => finalize(s, &mut m, i)?,
            3 => chaos(s, &mut m, i)?,
            4 => too_low_fee(s, &mut m, i)?,
            5 => pair(s, &mut m, i)?,
            _ => {
                // (what was charged does not depend on later prices)
                let t = if s.bool() { 0 } else { m.vs[i].s.token };
                let p = if t == 0 { s.range(2_00000000, 400_00000000) } else { s.range(0_10000000, 9_00000000) };
                m.w.set_price(t, p as i64, p / 1000, -8);
                s.log(|| format!("price of token {t}: {p}e-8"));
                s.label("price changed");
            }
        }
    }
    // what is left can be settled
    for i in 0..k { init(s, &mut m, i)?; }
    for i in 0..k { proof(s, &mut m, i)?; }
    for i in 0..k { finalize(s, &mut m, i)?; }
    if m.vs.iter().any(|v| v.paid) { let h = s.choices_hash(); s.nontrivial(h); }
    Ok(())
}

/// Equal payments by Solana Pay, settled together with fewer transfers to the recipient
fn shared_pay(s: &mut Src) -> Res {
    let t = template();
    let mut w = t.w.clone();
    let nullifiers: Vec<B32> = (0..6).map(|_| gen_field(s)).collect();
    for (i, a) in nullifiers.iter().enumerate() { if nullifiers[..i].contains(a) { return Ok(()) } }
    let mut v = gen_send(s, &mut w, 0, &nullifiers[..2], t);
    v.inputs.truncate(1);
    v.amount = v.amount.max(2 * SOL);
    (v.solana_pay, v.memo, v.index) = (true, None, 0);
    let k = s.usize(2, 3);
    let mut vs = vec![V { s: v.clone(), fees: None, paid: false }];
    for i in 1..k {
        let mut x = Send { inputs: vec![(v.inputs[0].0, nullifiers[i + 2])], output: gen_field(s), index: i as u8, ..v.clone() };
        match s.below(6) { 0 => x.solana_pay = false, 1 => { x.optional.1 = x.amount / 4; } 2 => { x.recipient = user("other"); } _ => {} }
        vs.push(V { s: x, fees: None, paid: false });
    }
    let mut m = Sim { w, vs, spent: BTreeMap::new(), queue: vec![], extra: vec![] };
    for i in 0..k { init(s, &mut m, i)?; }
    for i in 0..k { proof(s, &mut m, i)?; }
    let mut parts: Vec<Vec<Instruction>> = vec![];
    let mut pays = vec![];
    for i in 0..k {
        let x = m.vs[i].s.clone();
        let Some(f) = m.vs[i].fees.clone() else { continue };
        let valid = state(&mut m.w, &x).and_then(|x| x.1).unwrap_or(true);
        let mut p = x.finalize_ixs(&mut m.w, &f, valid);
        if x.solana_pay { if let Some(l) = p.pop() { pays.push(l); } }
        parts.push(p);
    }
    let mut ixs = vec![];
    for i in s.permutation(parts.len()) { ixs.append(&mut parts[i]); }
    let keep = if s.chance(1, 6) { pays.len() } else { s.usize(1, pays.len()) };
    if s.bool() { pays.rotate_left(1); }
    pays.truncate(keep);
    if s.chance(1, 6) && pays.len() > 1 { let at = s.below(ixs.len() + 1); let p = pays.remove(0); ixs.insert(at, p); }
    ixs.extend(pays);
    let h = s.choices_hash();
    s.nontrivial(h);
    exec_chaos(s, &mut m, 0, &format!("{k} equal payments with {keep} transfers"), &ixs, Deltas::default())
}

/// A send is accepted if and only if what remains for its recipient suffices to open the recipient's account
fn limits(s: &mut Src) -> Res {
    let t = template();
    let mut w = t.w.clone();
    let free = s.bool();
    if free {
        w.fee = fee([5000, 50, 0, 1000, 1000, 300, 300]);
        let f = fee([5000, 50, 0, 1000, 1000, 300, 300]);
        with_acc!(w, pda_at::<FeeAccount>(0).0, FeeAccount, |a| a.set_program_fee(&f));
        with_acc!(w, pda::<GovernorAccount>(), GovernorAccount, |a| a.set_program_fee(&f));
    }
    let nullifiers: Vec<B32> = (0..6).map(|i| fr_to_le(&fr_u64(50 + i))).collect();
    let mut v = gen_send(s, &mut w, 0, &nullifiers, t);
    v.memo = None;
    (v.amount, v.optional.1) = (SOL, 0);
    let Some(f) = set_fee(&w, &mut v, 0) else { return Ok(()) };
    let least = if v.token == 0 { rent_exempt(0) } else { f.ata_rent_token };
    let rest = match s.below(4) { 0 => least, 1 => least.saturating_sub(s.below(3) as u64), 2 => least + s.below(3) as u64, _ => s.below(3) as u64 };
    if free && s.bool() {
        // almost everything there is
        v.amount = u64::MAX - v.fee - s.pick(&[0u64, 0, 1, 2, 100_000_000]);
        v.optional.1 = v.amount.saturating_sub(rest);
    } else {
        v.optional.1 = s.pick(&[0u64, 0, 1, 1000, SOL]);
        v.amount = v.optional.1 + rest;
    }
    let Some(f) = set_fee(&w, &mut v, s.pick(&[0u64, 0, 1])) else { return Ok(()) };
    v.solana_pay = v.solana_pay && v.amount > 0;
    let least = if v.token == 0 { if v.amount > 0 { rent_exempt(0) } else { 0 } } else { f.ata_rent_token };
    let fits = v.amount - v.optional.1 >= least && v.amount.checked_add(v.fee).is_some();
    let ixs = v.init_ixs(&w);
    let r = w.svm.tx(&ixs, &[v.ofp]);
    s.log(|| format!("token {} {:?}: amount {} optional {} fee {} least {least} -> {r:?}", v.token, v.kind, v.amount, v.optional.1, v.fee));
    let h = s.choices_hash();
    s.nontrivial(h);
    s.label(if fits { "enough" } else { "not enough" });
    check!(r.is_ok() == fits, "limit", "token {} to {:?}: {} remain of {} after the optional fee (at least {least} are required): {r:?}", v.token, v.kind, v.amount - v.optional.1, v.amount);
    Ok(())
}

/// A send that spends commitments of two trees
fn two_trees(s: &mut Src) -> Res {
    let t = template();
    let mut w = t.w.clone();
    let nullifiers: Vec<B32> = (0..6).map(|i| fr_to_le(&fr_u64(50 + i))).collect();
    let mut v = gen_send(s, &mut w, 0, &nullifiers, t);
    second_tree(&mut w, t);
    let k = s.usize(2, 4);
    let other = s.usize(1, k - 1);
    v.inputs = (0..k).map(|i| (if i == 0 || i == other { t.roots.last().copied() } else { None }, nullifiers[i])).collect();
    v.trees = s.pick(&[[0u32, 1], [1, 0]]);
    (v.amount, v.optional.1) = (2 * SOL, 0);
    let mut m = Sim { w, vs: vec![V { s: v, fees: None, paid: false }], spent: BTreeMap::new(), queue: vec![], extra: vec![] };
    init(s, &mut m, 0)?;
    if m.vs[0].fees.is_none() { s.label("refused"); return Ok(()) }
    proof(s, &mut m, 0)?;
    let v = m.vs[0].s.clone();
    let f = m.vs[0].fees.clone().unwrap();
    let valid = state(&mut m.w, &v).and_then(|x| x.1).unwrap_or(true);
    let h = s.choices_hash();
    s.nontrivial(h);
    let before = balances(&m.w);
    let mut ixs = v.finalize_ixs(&mut m.w, &f, valid);
    // (whichever tree each of them is inserted into)
    let trees: Vec<u32> = v.inputs.iter().enumerate().map(|(i, (r, _))| if r.is_some() && i > 0 { v.trees[1] } else { v.trees[0] }).collect();
    if valid && s.bool() { for i in 0..k { ixs[1 + i] = m.w.insert_nullifier_ix(v.ofp, v.index, trees[i]); } }
    let r = m.w.svm.tx(&ixs, &[v.ofp]);
    s.log(|| format!("trees {:?}, {k} inputs, valid {valid} -> {r:?}", v.trees));
    if r.is_ok() {
        let spent: Vec<(bool, bool)> = (0..k).map(|i| (in_tree(&mut m, trees[i], &v.inputs[i].1), in_tree(&mut m, 1 - trees[i], &v.inputs[i].1))).collect();
        check!(spent.iter().all(|x| *x == (valid, false)), "tree", "after the settlement (valid: {valid}) the nullifiers of trees {trees:?} are spent (in it, in the other): {spent:?}");
        s.label(if valid { "paid" } else { "forfeited" });
        return Ok(())
    }
    check!(balances(&m.w) == before, "failed-tx", "harness: failed transaction changed balances");
    check!(valid, "stuck", "the forfeiture of a send from two trees fails: {r:?}");
    fail("stuck-two-trees", format!("a send from two trees is accepted, but cannot be settled: {r:?}"))
}

fn main() {
    kat();
    Suite::new("P11", "histories in which at least one send was paid out")
        .assume("the result of the proof verification is written by the harness (decided by P08)")
        .test("settlement", 9000, 300000, history)
        .test("limits", 6000, 100000, limits)
        .test("two_trees", 300, 5000, two_trees)
        .test("shared_pay", 1500, 40000, shared_pay)
        .main()
}
