//! Property P08: the partial proof verification decides exactly the Groth16 equation.
//! Oracle: verifying keys and proofs with known trapdoors, for which the pairing equation is an equation over scalars.
use ark_bn254::{Bn254, Fr};
use ark_ec::PairingEngine;
use ark_ff::{Field, One, Zero};
use elusiv::proof::verifier::*;
use elusiv::proof::vkey::VerifyingKey;
use elusiv::state::proof::{VerificationAccount, VerificationState};
use elusiv::types::RawU256;
use elusiv_types::accounts::{ProgramAccount, SizedAccount};
use harness::groth::*;
use harness::poseidon::*;
use harness::prelude::*;
use harness::send::*;
use harness::settle::*;
use harness::world::*;
use solana_program::program_error::ProgramError;
use std::sync::OnceLock;

fn big() -> &'static (Toxic, Vec<u8>) {
    static T: OnceLock<(Toxic, Vec<u8>)> = OnceLock::new();
    T.get_or_init(|| { let mut t = Toxic::fixed(14, 14); t.ic[10] = Fr::zero(); let v = t.source(); (t, v) })
}

pub fn gen_input(s: &mut Src) -> B32 {
    match s.below(6) {
        0 => [0; 32],
        1 => { let mut b = [0; 32]; b[s.below(32)] = s.u8(); fr_to_le(&fr_from_le(&b)) }
        2 => { let mut b: B32 = s.bytes(); for _ in 0..s.below(24) { b[s.below(32)] = 0; } fr_to_le(&fr_from_le(&b)) }
        3 => fr_to_le(&-Fr::one()),
        _ => fr_to_le(&gen_fr(s)),
    }
}

/// `count` non-zero bytes, after `leading` zero ones
fn sparse(s: &mut Src, leading: usize, count: usize) -> B32 {
    let mut b = [0; 32];
    let free = 32 - leading;
    let count = count.min(free);
    let mut p: Vec<usize> = s.permutation(free);
    p.truncate(count);
    for i in p { b[leading + i] = if leading + i == 31 { 1 + s.below(0x2f) as u8 } else { 1 + s.below(255) as u8 }; }
    b
}

/// units of computation after another byte or addition (the budget of an instruction is 1330)
fn units(u: usize, cost: usize) -> usize { if u + cost > 1330 { cost } else { u + cost } }
fn after(mut u: usize, x: &B32) -> usize {
    for b in x { if *b != 0 { u = units(u, 22); } }
    if *x == [0; 32] { u } else { units(u, 30) }
}

/// inputs for which instructions end at the border of two inputs, between the first zero bytes of an input, or within the last ones
fn gen_borders(s: &mut Src, n: usize) -> Vec<B32> {
    let mut x: Vec<B32> = vec![];
    let mut u = 0;
    let mut full = false;
    for i in 0..n {
        let leading = if full { s.usize(0, 31) } else { s.pick(&[0usize, 0, 1, 5]) };
        // the next input starts with an (almost) exhausted budget
        let m = if s.chance(1, 3) { (1..=32 - leading).find(|m| { let v = (0..*m).fold(u, |u, _| units(u, 22)); let v = units(v, 30); v > 1308 }) } else { None };
        full = m.is_some();
        let m = match m { Some(m) => m, None => s.pick(&[32usize, 31, 20, 8, 1]) };
        let b = if s.chance(1, 12) { [0; 32] } else { sparse(s, leading, m) };
        u = after(u, &b);
        if full && u > 1308 && i + 1 < n { s.label("full instruction at an input's end"); }
        x.push(b);
    }
    x
}

struct Case { t: Toxic, x: Vec<B32>, a: Fr, b: Fr, c: Fr }

fn gen_case(s: &mut Src) -> (Case, Option<Vec<u8>>) {
    let n = s.pick(&[1usize, 2, 3, 14]);
    let (mut t, mut src) = if n == 14 { (big().0.clone(), None) } else { (Toxic::gen(s, n), Some(vec![])) };
    let x: Vec<B32> = if n > 1 && s.chance(1, 4) { gen_borders(s, n) } else { (0..n).map(|_| gen_input(s)).collect() };
    if n < 14 && s.chance(1, 5) { t.ic[0] = t.ic[0] - t.prepared(&x); s.label("prepared inputs = 0"); }
    if n == 14 && s.chance(1, 12) { src = None; }
    let p = t.prepared(&x);
    let (mut a, mut b) = (gen_fr(s), gen_fr(s));
    match s.below(8) { 0 => { a = Fr::zero(); s.label("A = 0"); } 1 => { b = Fr::zero(); s.label("B = 0"); } 2 => { a = t.alpha; b = t.beta; } _ => {} }
    let mut c = t.solve(&x, a, b);
    if s.chance(1, 8) && !b.is_zero() { c = Fr::zero(); a = (t.alpha * t.beta + p * t.gamma) * b.inverse().unwrap(); s.label("C = 0"); }
    // a valid proof so far
    let mut x = x;
    match s.below(10) {
        0 => c += Fr::one(),
        1 => c = gen_fr(s),
        2 => a = -a,
        3 => { a = -a; b = -b; }
        4 => { let i = s.below(n); x[i] = gen_input(s); }
        5 => { let (i, j) = (s.below(n), s.below(n)); x.swap(i, j); }
        6 => { let i = s.below(n); let k = s.below(31); x[i][k] = x[i][k].wrapping_add(1 + s.below(255) as u8); }
        7 => std::mem::swap(&mut a, &mut c),
        _ => {}
    }
    if src.is_some() { src = Some(t.source()); }
    (Case { t, x, a, b, c }, src)
}

/// runs the partial computation call by call, on the account's bytes
fn direct(s: &mut Src) -> Res {
    let (case, own) = gen_case(s);
    let src: &[u8] = match &own { Some(v) => v, None => &big().1 };
    let Case { t, x, a, b, c } = &case;
    let n = x.len();
    let want = t.verdict(x, *a, *b, *c);
    if s.chance(1, 12) {
        // the oracle itself against a reference pairing
        let e = Bn254::pairing(g1(*a), g2(*b)) == Bn254::pairing(g1(t.alpha), g2(t.beta)) * Bn254::pairing(g1(t.prepared(x)), g2(t.gamma)) * Bn254::pairing(g1(*c), g2(t.delta));
        assert_eq!(e, want, "harness: scalar oracle");
    }
    let pr = proof(*a, *b, *c);
    let ixs = prepare_public_inputs_instructions(x, n);
    check!(ixs.iter().sum::<u32>() as usize == 33 * n && ixs.iter().all(|&i| i > 0 && i <= u16::MAX as u32), "rounds", "preparation of {n} inputs: {ixs:?}");
    let mut data = vec![0u8; <VerificationAccount as SizedAccount>::SIZE];
    let late = s.bool();
    {
        let mut v = <VerificationAccount as ProgramAccount>::new(&mut data).unwrap();
        for (i, p) in x.iter().enumerate() { v.set_public_input(i, &RawU256::new(*p)); }
        v.setup_public_inputs_instructions(&ixs).unwrap();
        if !late { v.a.set(pr.a); v.b.set(pr.b); v.c.set(pr.c); v.set_state(&VerificationState::ProofSetup); }
    }
    let vkey = VerifyingKey::new(src, n).unwrap();
    let total = ixs.len() + COMBINED_MILLER_LOOP_IXS + FINAL_EXPONENTIATION_IXS;
    // instruction index within the transaction: mostly the last one
    let other = s.pick(&[0u16, 1, 5, 7, 65535]);
    let noise = s.chance(1, 3);
    let mut verdict = None;
    let mut done = 0;
    let mut calls = 0;
    while verdict.is_none() {
        calls += 1;
        check!(calls <= 4 * total + 20, "no result", "no verdict after {done} of {total} computation steps");
        let idx = if noise && s.chance(1, 4) { other } else { 6 };
        let phase = if done < ixs.len() { 0 } else if done < ixs.len() + COMBINED_MILLER_LOOP_IXS { 1 } else { 2 };
        let before = data.clone();
        let r = { let mut v = <VerificationAccount as ProgramAccount>::new(&mut data).unwrap(); guard(|| verify_partial(&mut v, &vkey, idx).map_err(ProgramError::from)) };
        let r = match r { Ok(r) => r, Err(p) => return fail("panic", format!("step {done} of {total}: {p}")) };
        if phase == 1 && { let v = <VerificationAccount as ProgramAccount>::new(&mut data).unwrap(); v.get_state() == VerificationState::None } {
            check!(r.is_err() && data == before, "without proof", "the pairing starts without a proof: {r:?}");
            let mut v = <VerificationAccount as ProgramAccount>::new(&mut data).unwrap();
            v.a.set(pr.a); v.b.set(pr.b); v.c.set(pr.c);
            v.set_state(&VerificationState::ProofSetup);
            continue;
        }
        if idx != 6 && phase != 1 {
            check!(matches!(r, Ok(None)) && data == before, "instruction index", "instruction {idx} of a transaction computes in phase {phase}: {r:?}");
            continue;
        }
        done += 1;
        match r {
            Ok(None) => check!(done < total, "no verdict", "no verdict after all {total} steps"),
            Ok(Some(v)) => { check!(done == total, "early", "verdict {v} after {done} of {total} steps"); verdict = Some(v); }
            Err(e) => { s.log(|| format!("{e:?} at step {done}")); verdict = Some(false); }
        }
    }
    s.log(|| format!("{n} inputs, {} preparation steps, verdict {verdict:?}, equation {want}", ixs.len()));
    s.label(if want { "valid" } else { "invalid" });
    let h = s.choices_hash();
    s.nontrivial(h);
    check!(verdict == Some(want), if want { "valid rejected" } else { "invalid accepted" }, "the verdict is {verdict:?}, the equation {} ({n} inputs, a = {:?}, b = {:?}, c = {:?}, prepared inputs {:?})", if want { "holds" } else { "does not hold" }, a.0 .0[0], b.0 .0[0], c.0 .0[0], t.prepared(x).0 .0[0]);
    // the computation cannot be continued
    if done == total {
        let before = data.clone();
        let r = { let mut v = <VerificationAccount as ProgramAccount>::new(&mut data).unwrap(); guard(|| verify_partial(&mut v, &vkey, 6).map_err(ProgramError::from)) };
        check!(matches!(r, Ok(Err(_))) && data == before, "continued", "a call after the verdict: {r:?}");
    }
    Ok(())
}

/// through transactions: interleaved verifications of one or two sends
fn transactions(s: &mut Src) -> Res {
    let k = keyed();
    let mut w = k.w.clone();
    let mut jobs = vec![];
    let mut want = vec![];
    for i in 0..s.usize(1, 2) {
        let nullifiers: Vec<B32> = (0..4).map(|_| gen_field(s)).collect();
        let mut v = gen_send(s, &mut w, i, &nullifiers, k.t);
        v.index = i as u8;
        if set_fee(&w, &mut v, 0).is_none() { return Ok(()) }
        let x = signals(&v, v.hashed_inputs());
        let (a, b) = match s.below(6) { 0 => (Fr::zero(), gen_fr(s)), 1 => (gen_fr(s), Fr::zero()), _ => (gen_fr(s), gen_fr(s)) };
        let mut c = k.toxic.solve(&x, a, b);
        match s.below(5) { 0 => c += Fr::one(), 1 => c = -c, _ => {} }
        want.push(k.toxic.verdict(&x, a, b, c));
        let ixs = v.init_ixs(&w);
        // (a request which is not acceptable is the subject of P11 / P19)
        if w.clone().svm.tx(&ixs, &[v.ofp]).is_err() { s.label("unacceptable request"); return Ok(()) }
        let r = w.svm.tx(&ixs[..1], &[v.ofp]);
        check!(r.is_ok(), "harness init", "init failed: {r:?}");
        jobs.push(Job { send: v, proof: proof(a, b, c), fee_transferred: false, proof_set: false });
    }
    match compute(s, &mut w, k, &mut jobs) {
        Err(e) => fail("no verdict", e),
        Ok(got) => {
            let h = s.choices_hash();
            s.nontrivial(h);
            for v in &want { s.label(if *v { "valid" } else { "invalid" }); }
            check!(got == want, "verdict", "verdicts {got:?}, the equations {want:?}");
            Ok(())
        }
    }
}

fn main() {
    kat();
    Suite::new("P08", "every case runs a complete verification; distinct by choices")
        .assume("proof points are canonical elements of the groups")
        .test("direct", 1500, 20000, direct)
        .test("transactions", 800, 8000, transactions)
        .main()
}
