//! Property P14: a send with a valid proof is finalised atomically: a transaction either settles it completely (all nullifiers,
//! payout, output commitment) or does not touch it, whatever instructions the transaction consists of and however they are invoked.
use elusiv::instruction::ElusivInstruction;
use elusiv::state::nullifier::NullifierAccount;
use elusiv::state::proof::{VerificationAccount, VerificationState};
use elusiv_types::ElusivOption;
use harness::poseidon::*;
use harness::prelude::*;
use harness::proxy;
use harness::send::*;
use harness::settle::*;
use harness::world::*;
use solana_program::instruction::Instruction;
use solana_program::system_instruction;

struct V { s: Send, f: Fees, valid: bool }

fn has_nullifier(w: &World, n: &B32) -> bool {
    let mut p = acct::Parent { data: w.svm.data(&pda_at::<NullifierAccount>(0).0).to_vec(), children: vec![None; 16] };
    p.children[0] = Some(w.svm.data(&child_key("nullifier", 0, 0)).to_vec());
    let k = fr_to_mr(&fr_from_le(n));
    with_parent!(p, NullifierAccount, |a| !a.can_insert_nullifier_hash(k).unwrap())
}

fn noise(s: &mut Src, v: &V, w: &mut World) -> Instruction {
    match s.below(6) {
        0 => Instruction { program_id: svm::compute_budget_id(), accounts: vec![], data: vec![2, 0, 0, 0, 0] },
        1 => ix(ElusivInstruction::Nop, vec![]),
        2 => system_instruction::transfer(&user(WARDENS[0]), &user("stranger"), 1),
        3 => Instruction { program_id: svm::memo_id(), accounts: vec![], data: vec![65] },
        4 => proxy::through(&ix(ElusivInstruction::Nop, vec![])),
        _ => { let mut x = v.s.insert_ix(w); x.program_id = proxy::accepting_id(); x }
    }
}

fn case(s: &mut Src) -> Res {
    let t = template();
    let mut w = t.w.clone();
    w.svm.register(proxy::id(), proxy::process);
    w.svm.register(proxy::accepting_id(), proxy::accept);
    let nullifiers: Vec<B32> = (0..8).map(|_| gen_field(s)).collect();
    for (i, a) in nullifiers.iter().enumerate() { if nullifiers[..i].contains(a) { return Ok(()) } }
    let k = s.usize(1, 3);
    let mut vs: Vec<V> = vec![];
    let same_index = s.bool();
    for i in 0..k {
        let mut v = gen_send(s, &mut w, i, &nullifiers[i * 2..i * 2 + 2], t);
        v.inputs.truncate(s.usize(1, 2));
        v.ofp = user(WARDENS[i % 2]);
        v.ofp_account = acc_of(&v.ofp, v.token);
        v.index = if same_index { (i / 2) as u8 } else { i as u8 };
        if s.bool() { v.memo = None; }
        if s.chance(3, 4) { v.solana_pay = false; }
        let Some(f) = set_fee(&w, &mut v, 0) else { continue };
        let ixs = v.init_ixs(&w);
        if w.svm.tx(&ixs, &[v.ofp]).is_err() { continue }
        let p = w.init_proof_ix(v.ofp, v.index, elusiv::types::Proof { a: zero_g1(), b: zero_g2(), c: zero_g1() });
        check!(w.svm.tx(&[p], &[v.ofp]).is_ok(), "harness", "harness: the proof cannot be set");
        let valid = !s.chance(1, 3);
        with_acc!(w, v.account(), VerificationAccount, |a| a.set_is_verified(&ElusivOption::Some(valid)));
        vs.push(V { s: v, f, valid });
    }
    if vs.is_empty() { return Ok(()) }
    // an invalid proof needs no atomic settlement
    for v in &vs { if !v.valid && v.s.memo.is_none() && s.bool() { let x = v.s.send_ix(&mut w); let _ = w.svm.tx(&[x], &[v.s.ofp]); } }
    let signers = [user(WARDENS[0]), user(WARDENS[1]), user("stranger")];
    for _ in 0..s.usize(1, 5) {
        // -- a transaction --
        let mut ixs: Vec<Instruction> = vec![];
        let mut what: Vec<String> = vec![];
        let mut proxied = false;
        let honest = s.chance(1, 4);
        let blocks = if honest { 1 } else { s.usize(1, 2) };
        let mut target = 0;
        for _ in 0..s.below(3) { let v = &vs[0]; ixs.push(noise(s, v, &mut w)); what.push("other".into()); }
        for b in 0..blocks {
            let i = s.below(vs.len());
            if b == 0 { target = i; }
            let v = &vs[i];
            let mut block = vec![("send", i, v.s.send_ix(&mut w))];
            for _ in 0..v.s.inputs.len() { block.push(("insert", i, v.s.insert_ix(&w))); }
            block.push(("transfer", i, v.s.transfer_ix(&w)));
            if !honest {
                for _ in 0..s.below(4) {
                    let j = s.below(vs.len());
                    let o = &vs[j];
                    let at = s.below(block.len());
                    match s.below(9) {
                        // the same data, for a different program
                        8 => { block[at].2.program_id = proxy::accepting_id(); block[at].0 = "foreign"; }
                        // send of one, transfer of another verification
                        7 => { block.retain(|e| e.0 == "send"); block.push(("transfer", j, o.s.transfer_ix(&w))); }
                        0 => { block.remove(at); if block.is_empty() { block.push(("insert", i, v.s.insert_ix(&w))); } }
                        1 => { let x = match s.below(3) { 0 => ("send", j, o.s.send_ix(&mut w)), 1 => ("insert", j, o.s.insert_ix(&w)), _ => ("transfer", j, o.s.transfer_ix(&w)) }; block.insert(at, x); }
                        2 => { let b2 = s.below(block.len()); block.swap(at, b2); }
                        // the same instruction for another verification
                        3 => { let x = match block[at].0 { "send" => o.s.send_ix(&mut w), "insert" => o.s.insert_ix(&w), _ => o.s.transfer_ix(&w) }; block[at] = (block[at].0, j, x); }
                        4 => { let x = proxy::through(&block[at].2); block[at].2 = x; proxied = true; block[at].0 = "cpi"; }
                        5 => { let x = noise(s, v, &mut w); block.insert(at, ("other", i, x)); }
                        // everything but the first for another verification
                        _ => { for e in block[1..].iter_mut() { let x = match e.0 { "send" => o.s.send_ix(&mut w), "insert" => o.s.insert_ix(&w), "transfer" => o.s.transfer_ix(&w), _ => continue }; *e = (e.0, j, x); } }
                    }
                }
            }
            for (n, i, x) in block { what.push(format!("{n} #{i}")); ixs.push(x); }
        }
        let v = &vs[target];
        if !v.s.solana_pay && v.s.memo.is_none() { for _ in 0..s.below(2) { ixs.push(noise(s, v, &mut w)); what.push("other".into()); } }
        if let Some(m) = v.s.memo_ix() { ixs.push(m); what.push("memo".into()); }
        if let Some(p) = v.s.pay_ix(&w, &v.f) { ixs.push(p); what.push("pay".into()); }
        else if v.s.solana_pay { ixs.push(system_instruction::transfer(&v.s.ofp, &v.s.ofp, 0)); }

        let before: Vec<_> = vs.iter().map(|v| { let a = v.s.account(); (state(&mut w, &v.s), w.svm.data(&a).to_vec()) }).collect();
        let spent: Vec<Vec<bool>> = vs.iter().map(|v| v.s.inputs.iter().map(|(_, n)| has_nullifier(&w, n)).collect()).collect();
        let queue = commitment_queue(&w).len();
        let r = w.svm.tx(&ixs, &signers);
        s.log(|| format!("[{}] -> {r:?}", what.join(", ")));
        if honest && matches!(before[target].0, Some((VerificationState::ProofSetup, _))) && vs[target].valid {
            check!(r.is_ok(), "stuck", "the settlement of #{target} fails: {r:?}");
        }
        let mut settled = 0;
        for (i, v) in vs.iter().enumerate() {
            let now = state(&mut w, &v.s);
            let open = matches!(&now, Some((st, _)) if *st != VerificationState::Closed);
            let was_open = matches!(&before[i].0, Some((st, _)) if *st != VerificationState::Closed);
            let ns: Vec<bool> = v.s.inputs.iter().map(|(_, n)| has_nullifier(&w, n)).collect();
            if !v.valid {
                check!(ns == spent[i], "invalid-spent", "nullifiers of #{i} were spent although its proof is invalid");
                continue;
            }
            if was_open && !open {
                settled += 1;
                check!(ns.iter().all(|x| *x), "partial", "#{i} was settled without spending all of its nullifiers: {ns:?}");
                check!(spent[i].iter().all(|x| !*x), "double", "#{i} was settled with a nullifier which had been spent before");
                let c = fr_to_mr(&fr_from_le(&v.s.output));
                check!(commitment_queue(&w).iter().any(|e| e.0 == c), "output", "the output commitment of #{i} was not queued");
                if !honest { let h = s.choices_hash(); s.nontrivial(h); }
                s.label(if honest { "settled" } else { "settled by an irregular transaction" });
            } else {
                check!(w.svm.data(&v.s.account()) == &before[i].1[..], "half-settled", "a transaction left the verification #{i} half settled ({:?} -> {:?})", before[i].0, now);
                check!(ns == spent[i], "half-settled", "a transaction spent nullifiers of #{i} without settling it");
            }
        }
        check!(commitment_queue(&w).len() == queue + settled, "queue", "{} commitments were queued by {settled} settlements", commitment_queue(&w).len() as i64 - queue as i64);
        if !honest && r.is_err() { let h = s.choices_hash(); s.nontrivial(h); s.label(if proxied { "irregular with CPI, rejected" } else { "irregular, rejected" }); }
    }
    Ok(())
}

fn main() {
    kat();
    Suite::new("P14", "histories with a transaction that combines settlement instructions irregularly")
        .assume("the result of the proof verification is written by the harness (decided by P08)")
        .test("atomicity", 10000, 300000, case)
        .main()
}
