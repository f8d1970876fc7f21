//! Property P15: an instruction only takes effect with the accounts and signatures it requires: with any other account in the place of one
//! that the program determines (its own accounts, their child accounts, token accounts of the pool and the fee collector, price accounts,
//! other programs, the recipient, ...) or without a required signature it is rejected, has no effect, or the very effect of the original.



use elusiv::state::commitment::*;
use elusiv::state::governor::{FeeCollectorAccount, PoolAccount};
use elusiv::state::nullifier::NullifierAccount;
use elusiv::token::TOKENS;










use harness::poseidon::*;
use harness::prelude::*;
use harness::proxy;


use harness::world::*;
use solana_program::instruction::{AccountMeta};
use solana_program::pubkey::Pubkey;
use solana_program::{system_program, sysvar};

use std::sync::{Arc};
use svm::Account;

use harness::stages::*;

/// accounts that belong together: of the members of a family, with corresponding accounts at corresponding positions
fn families() -> Vec<(&'static str, Vec<Vec<Pubkey>>)> {
    let of = |p: Pubkey| -> Vec<Pubkey> { std::iter::once(p).chain((1..TOKENS.len() as u16).map(|t| ata(&p, t))).collect() };
    let persons: Vec<Pubkey> = vec![attacker(), warden(), user("warden-b"), client(), user("recipient"), user("optional"), user("identifier")];
    let vaults: Vec<Pubkey> = vec![pda::<PoolAccount>(), pda::<FeeCollectorAccount>(), attacker()];
    let holders: Vec<Pubkey> = persons.iter().chain(&vaults).copied().collect();
    let tokens = (0..TOKENS.len() as u16).map(|t| {
        let mut m = vec![TOKENS[t as usize].mint, TOKENS[t as usize].pyth_usd_price_key];
        m.extend(holders.iter().map(|h| acc_of(h, t)));
        m
    }).collect();
    let trees = (0..2u32).map(|t| std::iter::once(pda_at::<NullifierAccount>(t).0).chain((0..16).map(|c| child_key("nullifier", t, c))).collect()).collect();
    vec![("person", persons.into_iter().map(of).collect()), ("vault", vaults.into_iter().map(of).collect()), ("token", tokens), ("tree", trees)]
}

fn substitution(s: &mut Src) -> Res {
    let st = &stages()[s.below(stages().len())];
    let mut w = st.w.clone();
    let mut ixs = st.ixs.clone();
    let mut signers = st.signers.clone();
    // the same with the substitutions that the signers are free to choose
    let mut chosen = st.ixs.clone();
    let (mut free, mut bound) = (false, false);
    let mut what: Vec<String> = vec![];
    // accounts that belong together are replaced together
    let joint = s.chance(1, 3);
    if joint {
        let families = families();
        let used = |m: &Vec<Pubkey>| ixs.iter().any(|i| i.program_id == elusiv::id() && i.accounts.iter().any(|a| m.contains(&a.pubkey)));
        let all: Vec<(usize, usize)> = families.iter().enumerate().flat_map(|(f, x)| (0..x.1.len()).map(move |m| (f, m))).filter(|&(f, m)| used(&families[f].1[m])).collect();
        if all.is_empty() { return Ok(()) }
        let persons: Vec<(usize, usize)> = all.iter().copied().filter(|x| x.0 == 0).collect();
        let (f, a) = if !persons.is_empty() && s.bool() { s.pick(&persons) } else { s.pick(&all) };
        let (kind, members) = &families[f];
        // (the attacker comes first)
        let b = if a > 0 && kind == &"person" && s.bool() { 0 } else { (a + s.usize(1, members.len() - 1)) % members.len() };
        let own: Vec<usize> = (0..ixs.len()).filter(|&i| ixs[i].program_id == elusiv::id()).collect();
        let only = if s.bool() { Some(if s.bool() { own[own.len() - 1] } else { s.pick(&own) }) } else { None };
        let pays = s.chance(1, 3);
        for (p, x) in ixs.iter_mut().enumerate() {
            if only.map(|o| o != p).unwrap_or(false) { continue }
            for (q, m) in x.accounts.iter_mut().enumerate() {
                // (of other programs: what they pay to)
                if x.program_id != elusiv::id() && !(pays && q == 1) { continue }
                let Some(n) = members[a].iter().position(|k| *k == m.pubkey) else { continue };
                let new = members[b][n];
                if new == m.pubkey { continue }
                m.pubkey = new;
                m.is_signer = m.is_signer && (new == attacker() || st.signers.contains(&new));
                if st.free.contains(&(p, q)) { free = true; chosen[p].accounts[q] = m.clone(); } else { bound = true; }
            }
        }
        if kind == &"person" { signers.push(attacker()); }
        if free || bound { s.label(&format!("joint: {kind}")); what.push(format!("{kind} {a} -> {b}{}", match only { Some(o) => format!(" (instruction {o})"), None => String::new() })); }
    }
    for d in (joint as usize)..s.pick(&[1usize, 1, 1, 2]) {
        // (instructions of other programs are not under test)
        let own: Vec<usize> = (0..ixs.len()).filter(|&i| ixs[i].program_id == elusiv::id() && !ixs[i].accounts.is_empty()).collect();
        let i = s.pick(&own);
        let j = s.below(ixs[i].accounts.len());
        let old: AccountMeta = ixs[i].accounts[j].clone();
        let k = old.pubkey;
        let everywhere = s.chance(1, 3);
        let decoy = user(&format!("decoy/{d}"));
        let clone = |w: &mut World, s: &mut Src, owner: Pubkey| {
            let mut a = w.svm.get(&k);
            a.owner = owner;
            a.lamports = a.lamports.max(rent_exempt(a.data.len()));
            if !a.data.is_empty() && a.data.len() < 1 << 16 && s.bool() {
                let data = Arc::make_mut(&mut a.data);
                let n = data.len();
                for _ in 0..s.usize(1, 8) { let p = if s.bool() { s.below(n.min(80)) } else { s.below(n) }; data[p] ^= s.pick(&[1u8, 2, 128, 255]); }
            }
            w.svm.accounts.insert(decoy, a);
            decoy
        };
        // (two existing accounts can belong together: another valid request)
        let (new, signs, name) = match s.below(if d == 0 { 9 } else { 5 }) {
            0 => { w.fund(&decoy, 10 * SOL, 0); (decoy, false, "a wallet") }
            1 => (clone(&mut w, s, elusiv::id()), false, "a copy owned by the program"),
            2 => { let o = w.svm.owner(&k); (clone(&mut w, s, o), false, "a copy with the same owner") }
            3 => (clone(&mut w, s, proxy::accepting_id()), false, "a copy owned by another program"),
            4 => (decoy, false, "an account that does not exist"),
            5 => { let a = s.pick(&st.ixs); if a.accounts.is_empty() { continue } (s.pick(&a.accounts.iter().map(|a| a.pubkey).collect::<Vec<_>>()), false, "another account of the transaction") }
            6 => { let keys: Vec<Pubkey> = w.svm.accounts.keys().copied().collect(); (s.pick(&keys), false, "another existing account") }
            7 => (s.pick(&[proxy::accepting_id(), system_program::ID, spl_token::ID, spl_associated_token_account::ID, sysvar::instructions::ID, sysvar::rent::ID, elusiv::id(), ata(&attacker(), 1), ata(&attacker(), 5)]), false, "a special account"),
            _ => (attacker(), true, "the attacker"),
        };
        let drop = s.chance(1, 6);
        if drop && !old.is_signer { continue }
        if !drop && new == k { continue }
        for (p, x) in ixs.iter_mut().enumerate() {
            if x.program_id != elusiv::id() && !drop { continue }
            for (q, a) in x.accounts.iter_mut().enumerate() {
                if (p, q) == (i, j) || (everywhere || drop) && a.pubkey == k {
                    if drop { a.is_signer = false; bound = true; continue }
                    a.pubkey = new;
                    a.is_signer = a.is_signer && (signs || st.signers.contains(&new));
                    if st.free.contains(&(p, q)) { free = true; chosen[p].accounts[q] = a.clone(); } else { bound = true; }
                }
            }
        }
        if signs { signers.push(attacker()); }
        what.push(format!("account {j} of instruction {i}{}: {}", if everywhere { " (everywhere)" } else { "" }, if drop { "signature missing".into() } else { format!("{name} ({new})") }));
    }
    if what.is_empty() { return Ok(()) }
    let before = w.svm.accounts.clone();
    // (who is not asked to sign, does not)
    signers.retain(|k| ixs.iter().any(|i| i.accounts.iter().any(|a| a.is_signer && a.pubkey == *k)));
    let r = w.svm.tx(&ixs, &signers);
    s.log(|| format!("{}: {} -> {r:?}", st.name, what.join(", ")));
    let runtime = matches!(&r, Err(e) if e.is_runtime());
    if !runtime { let h = s.choices_hash(); s.nontrivial(h); }
    if r.is_err() { check!(changed(&before, &w.svm.accounts).is_none(), "harness", "harness: a rejected transaction has effects"); return Ok(()) }
    if changed(&before, &w.svm.accounts).is_none() { s.label("no effect"); return Ok(()) }
    let none = Account::default();
    let want = if free && bound {
        // the effect of the permitted substitutions alone
        let mut c = st.w.clone();
        c.svm.accounts = before.clone();
        let sg: Vec<Pubkey> = st.signers.iter().copied().chain([attacker()]).filter(|k| chosen.iter().any(|i| i.accounts.iter().any(|a| a.is_signer && a.pubkey == *k))).collect();
        match c.svm.tx(&chosen, &sg) { Ok(()) => Some(c.svm.accounts), Err(_) => None }
    } else {
        // the effect of the original transaction (next to the decoys)
        let mut want = st.after.clone();
        for (k, a) in &before { if !same(a, st.w.svm.accounts.get(k).unwrap_or(&none)) { want.insert(*k, a.clone()); } }
        Some(want)
    };
    let diff = match &want { Some(x) => match changed(x, &w.svm.accounts) { None => { s.label("same effect"); return Ok(()) } Some(k) => format!("{k} differs from the original effect") }, None => "it is rejected without the other substitutions".into() };
    if !bound {
        s.label("other signer or own account");
        // nobody else pays
        for (k, a) in &before {
            if a.data.len() > 165 || signers.contains(k) || signers.iter().any(|g| a.data.len() == 165 && a.data[32..64] == g.to_bytes()) || a.owner == elusiv::id() { continue }
            let (x, y) = (w.svm.get(k), st.after.get(k).unwrap_or(&none));
            check!(x.lamports >= a.lamports.min(y.lamports), "theft", "{}: {}: lamports of {k} taken", st.name, what.join(", "));
            if a.owner == spl_token::ID { let t = |a: &Account| u64::from_le_bytes(a.data[64..72].try_into().unwrap()); check!(t(&x) >= t(a).min(if y.data.len() == 165 { t(y) } else { 0 }), "theft", "{}: {}: tokens of {k} taken", st.name, what.join(", ")); }
        }
        return Ok(())
    }
    fail("substitution", format!("{}: succeeds with {}; {diff}", st.name, what.join(", ")))
}

fn main() {
    kat();
    let n = stages().len();
    println!("[P15] {n} transactions of complete histories");
    let _ = (pda::<FeeCollectorAccount>(), pda::<CommitmentQueueAccount>());
    Suite::new("P15", "transactions with substituted accounts or missing signatures that the runtime passes to the program")
        .assume("the result of the proof verification is written by the harness for the settlement (decided by P08)")
        .test("substitution", 300_000, 6_000_000, substitution)
        .main()
}
