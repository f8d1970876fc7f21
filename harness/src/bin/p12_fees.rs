//! Property P12: every fee configuration the program accepts charges exactly the documented fees (no wrap-around, rounding only in
//! favour of the pool), covers every compensation it promises, and never subsidises more than the fee itself.
use elusiv::commitment::{commitment_hash_computation_instructions, BaseCommitmentHashComputation, MAX_COMMITMENT_BATCHING_RATE};
use elusiv::proof::verifier::{CombinedMillerLoop, FinalExponentiation};
use elusiv::state::fee::{BasisPointFee, FeeAccount, ProgramFee};
use elusiv::state::governor::GovernorAccount;
use elusiv::token::{Lamports, TokenPrice, TOKENS};
use elusiv_computation::PartialComputation;
use elusiv_types::tokens::Price;
use elusiv::state::governor::{FeeCollectorAccount, PoolAccount};
use elusiv::state::proof::{NullifierDuplicateAccount, VerificationAccount};
use elusiv_types::{ElusivOption, SizedAccount};
use harness::poseidon::kat;
use harness::prelude::*;
use harness::send::*;
use harness::settle::{gen_send, template, zero_g1, zero_g2};
use harness::world::*;
use solana_program::pubkey::Pubkey;
use std::sync::OnceLock;

const BATCH_TXS: [u128; 5] = [24, 24, 25, 29, 37];
/// Miller loop and final exponentiation transactions, init and finalize
fn base_txs() -> u128 { (CombinedMillerLoop::TX_COUNT + FinalExponentiation::TX_COUNT + 2) as u128 }

fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, Fail> { guard(f).map_err(|e| Fail::Violation { sig: "panic".into(), msg: e }) }

/// exact values of the fee formulas
struct Exact { comp: u128, base: u128, commitment: [u128; 5], per_tx: u128, proof_reward: u128 }
fn exact(f: &ProgramFee) -> Exact {
    let comp = f.lamports_per_tx.0 as u128 + f.warden_hash_tx_reward.0 as u128;
    let mut commitment = [0; 5];
    for r in 0..5 { commitment[r] = (BATCH_TXS[r] * comp + (1 << r) - 1) / (1 << r); }
    Exact { comp, base: BaseCommitmentHashComputation::TX_COUNT as u128 * comp + f.lamports_per_tx.0 as u128, commitment, per_tx: f.lamports_per_tx.0 as u128, proof_reward: f.warden_proof_reward.0 as u128 }
}
impl Exact {
    fn verification(&self, prep: usize) -> u128 { (prep as u128 + base_txs()) * self.per_tx + self.proof_reward }
}

/// subventions are at most the cheapest fee they subsidise
fn acceptable(f: &ProgramFee) -> bool {
    let e = exact(f);
    f.proof_base_tx_count as u128 == base_txs()
        && (0..5).all(|r| f.base_commitment_subvention.0 as u128 <= e.commitment[r] && f.proof_subvention.0 as u128 <= base_txs() * e.per_tx + e.commitment[r])
}
/// all formulas are representable
fn representable(f: &ProgramFee) -> bool {
    let e = exact(f);
    let m = u64::MAX as u128;
    BATCH_TXS.iter().all(|t| t * e.comp <= m) && e.base + e.commitment[0] <= m && e.verification(140) + e.commitment[0] <= m
}
/// amounts below a thousand SOL are no reason to reject (the limit for absurd amounts is up to the program)
fn moderate(f: &ProgramFee) -> bool { [f.lamports_per_tx.0, f.warden_hash_tx_reward.0, f.warden_proof_reward.0].iter().all(|l| *l <= 1 << 40) }

fn amount(s: &mut Src) -> u64 {
    match s.below(6) {
        0 => s.u64_edge(),
        1 => s.pick(&[5000u64, 0, 1, 300]),
        2 => u64::MAX / s.range(1, 2000),
        _ => s.range(0, 1_000_000),
    }
}

fn gen(s: &mut Src) -> ProgramFee {
    let mut f = fee([amount(s), 0, 0, 0, 0, amount(s), amount(s)]);
    f.base_commitment_network_fee = BasisPointFee(match s.below(4) { 0 => s.u64_edge(), _ => s.range(0, 10_001) });
    f.proof_network_fee = BasisPointFee(match s.below(4) { 0 => s.u64_edge(), _ => s.range(0, 10_001) });
    let e = exact(&f);
    // around the limits
    let around = |s: &mut Src, x: u128| -> u64 { (x as u64).wrapping_add(s.pick(&[0u64, 1, u64::MAX, 2, u64::MAX - 1])) };
    let r = s.below(5);
    f.base_commitment_subvention = Lamports(match s.below(3) { 0 => 0, 1 => around(s, e.commitment[r]), _ => { let m = e.commitment[4] as u64; s.range(0, m) } });
    f.proof_subvention = Lamports(match s.below(3) { 0 => 0, 1 => around(s, e.commitment[r] + base_txs() * e.per_tx), _ => { let m = (base_txs() * e.per_tx) as u64; s.range(0, m) } });
    if s.chance(1, 12) { f.proof_base_tx_count = match s.below(3) { 0 => 0, 1 => f.proof_base_tx_count + 1, _ => s.u64() }; }
    f
}

fn show(f: &ProgramFee) -> String {
    format!("lamports_per_tx {}, network fees {}/{} bps, subventions {}/{}, rewards {}/{}, base tx count {}", f.lamports_per_tx.0, f.base_commitment_network_fee.0, f.proof_network_fee.0, f.base_commitment_subvention.0, f.proof_subvention.0, f.warden_hash_tx_reward.0, f.warden_proof_reward.0, f.proof_base_tx_count)
}

/// which configurations are accepted, and what they charge
fn configuration(s: &mut Src) -> Res {
    let f = gen(s);
    let (ok, fits) = (acceptable(&f), representable(&f));
    let valid = no_panic(|| f.is_valid())?;
    let new = no_panic(|| ProgramFee::new(f.lamports_per_tx.0, f.base_commitment_network_fee.0, f.proof_network_fee.0, f.base_commitment_subvention.0, f.proof_subvention.0, f.warden_hash_tx_reward.0, f.warden_proof_reward.0))?;
    if f.proof_base_tx_count == ProgramFee::proof_base_tx_count() {
        let (a, b) = (new.as_ref().map(|n| borsh::to_vec(n).unwrap()), if valid { Some(borsh::to_vec(&f).unwrap()) } else { None });
        check_eq!(a, b, "new", "the configuration created from {} differs from it, or is refused although the same one is accepted (or the reverse)", show(&f));
    }
    s.log(|| format!("{} -> {valid}", show(&f)));
    check!(!valid || ok, "subvention", "accepted although a subvention exceeds the fee (or the transaction count is wrong): {}", show(&f));
    check!(!valid || fits, "overflow", "accepted although its fees overflow: {}", show(&f));
    check!(valid || !(ok && moderate(&f)), "rejected", "a sound configuration is rejected: {}", show(&f));
    if !valid { s.label("rejected"); return Ok(()) }
    s.label("accepted");
    let e = exact(&f);
    check_eq!(f.hash_tx_compensation().0 as u128, e.comp, "formula", "compensation of a hash transaction: {}", show(&f));
    check_eq!(f.base_commitment_hash_computation_fee().0 as u128, e.base, "formula", "base commitment hash fee: {}", show(&f));
    for r in 0..5 {
        check_eq!(f.commitment_hash_computation_fee(r).0 as u128, e.commitment[r as usize], "formula", "commitment hash fee at rate {r}: {}", show(&f));
        let paid = commitment_hash_computation_instructions(r).len() as u128 * e.comp;
        check!(f.commitment_hash_computation_fee(r).0 as u128 * (1 << r) >= paid, "underfunded", "a batch at rate {r} collects less than the {paid} lamports it pays: {}", show(&f));
    }
    let prep = s.below(141);
    check_eq!(f.proof_verification_computation_fee(prep).0 as u128, e.verification(prep), "formula", "verification fee with {prep} preparations: {}", show(&f));
    let h = s.choices_hash();
    s.nontrivial(h);
    Ok(())
}

/// basis points of arbitrary amounts
fn network(s: &mut Src) -> Res {
    let bps = match s.below(3) { 0 => s.u64_edge(), 1 => s.range(0, 10_001), _ => s.pick(&[0u64, 1, 9_999, 10_000, 10_001]) };
    let a = match s.below(4) { 0 => s.u64_edge(), 1 => { let t = s.choose(&TOKENS); s.pick(&[t.min, t.max]) } 2 => s.range(0, 20_000), _ => s.u64() };
    let want = bps as u128 * a as u128 / 10_000;
    let got = no_panic(|| BasisPointFee(bps).calc(a))?;
    s.log(|| format!("{bps} bps of {a} = {got}"));
    if want <= u64::MAX as u128 {
        check!(got as u128 == want, "network-fee", "{bps} basis points of {a} are {want}, not {got}");
        if bps <= 10_000 { check!(got <= a, "network-fee", "more than the amount"); }
        let h = s.choices_hash();
        s.nontrivial(h);
    } else { check!(got as u128 >= u64::MAX as u128 / 2, "network-fee", "{bps} basis points of {a} exceed the amounts, but the fee is {got}"); }
    Ok(())
}

/// fee of a private send
fn proof_fee(s: &mut Src) -> Res {
    let f = { let f = gen(s); if f.is_valid() && f.proof_network_fee.0 <= 10_000 { f } else { gen_fee(s) } };
    let e = exact(&f);
    let rate = s.below(5) as u32;
    let prep = s.below(141);
    let token = s.below(3) as u16;
    let a = match s.below(3) { 0 => s.u64_edge() >> 14, 1 => TOKENS[token as usize].max, _ => s.range(0, 100 * SOL) };
    let price = if token == 0 { TokenPrice::new_lamports() } else {
        TokenPrice::new_from_price(Price { price: s.range(1, 1 << 27) as i64, conf: 1, expo: -(s.usize(12, 18) as i32) }, Price { price: s.range(1, 1 << 27) as i64, conf: 1, expo: -8 }, token)
    };
    let conv = |l: u128| Lamports(l as u64).into_token(&price, token).map(|t| t.amount() as i128);
    let net = f.proof_network_fee.0 as i128 * a as i128 / 10_000;
    if [e.verification(prep), e.commitment[rate as usize]].iter().any(|l| *l > i64::MAX as u128) && token > 0 { return Ok(()) }
    let got = no_panic(|| f.proof_verification_fee(prep, rate, a, token, &price))?;
    let parts = (conv(e.verification(prep)), conv(e.commitment[rate as usize]), conv(f.proof_subvention.0 as u128));
    if let (Ok(v), Ok(c), Ok(sub)) = parts {
        let sum = v + c + net - sub;
        match &got {
            Ok(t) => { check!(t.amount() as i128 == sum && t.token_id() == token, "proof-fee", "fee of a send of {a}: {} instead of {v} + {c} + {net} - {sub} ({})", t.amount(), show(&f)); s.label(&format!("token {token}")); let h = s.choices_hash(); s.nontrivial(h); }
            Err(_) => check!(sum < 0 || v + c + net > u64::MAX as i128, "proof-fee", "the fee of a send cannot be computed although it is {sum} ({})", show(&f)),
        }
        if token == 0 { check!(sum >= net, "proof-fee", "a send is subsidised beyond its computation fees by {}", net - sum); }
    } else { check!(got.is_err(), "proof-fee", "the fee of a send is computed although an amount is not convertible"); }
    Ok(())
}

fn unset() -> &'static World {
    static T: OnceLock<World> = OnceLock::new();
    T.get_or_init(|| {
        let mut w = World::bare(fee([5000, 0, 0, 0, 0, 0, 0]));
        // before the governor and its fee were set up
        for k in [pda::<GovernorAccount>(), pda_at::<FeeAccount>(0).0] { w.svm.accounts.remove(&k); }
        w
    })
}

/// fees through instructions: exactly the acceptable configuration becomes the program's fee, once
fn init(s: &mut Src) -> Res {
    let mut w = unset().clone();
    let p = w.payer;
    let r = w.svm.tx(&[setup_governor(p)], &[p]);
    check!(r.is_ok(), "setup", "the governor cannot be set up: {r:?}");
    let mut set: Option<ProgramFee> = None;
    for _ in 0..s.usize(1, 4) {
        let f = if s.bool() { gen_fee(s) } else { gen(s) };
        let version = s.pick(&[0u32, 0, 0, 1, 2, u32::MAX]);
        let ok = w.svm.tx(&[init_fee(p, version, clone_fee(&f))], &[p]).is_ok();
        s.log(|| format!("version {version}: {} -> {ok}", show(&f)));
        let possible = version == 0 && set.is_none() && acceptable(&f);
        check!(ok && possible && representable(&f) || !ok && !(possible && moderate(&f)), "init-fee", "fee version {version} ({}; already set: {}) -> {ok}", show(&f), set.is_some());
        if ok { set = Some(f); s.label("set"); }
        let (v, now) = with_acc!(w, pda::<GovernorAccount>(), GovernorAccount, |a| (a.get_fee_version(), a.get_program_fee()));
        check!(v == 0, "init-fee", "the governor's fee version became {v}");
        if let Some(f) = &set {
            check!(now == *f, "init-fee", "the governor holds {} instead of {}", show(&now), show(f));
            let acc = with_acc!(w, pda_at::<FeeAccount>(0).0, FeeAccount, |a| a.get_program_fee());
            check!(acc == *f, "init-fee", "the fee account holds {} instead of {}", show(&acc), show(f));
        }
    }
    if set.is_some() { let h = s.choices_hash(); s.nontrivial(h); }
    Ok(())
}

fn name(v: &Send) -> impl Fn(&Pubkey) -> String + '_ {
    move |k: &Pubkey| {
        for (n, p) in [("pool", pda::<PoolAccount>()), ("fee-collector", pda::<FeeCollectorAccount>()), ("fee payer", v.ofp), ("verification account", v.account()), ("duplicate account", v.duplicate()), ("recipient", v.recipient_account()), ("optional collector", v.optional.0)] {
            if *k == p { return n.into() }
            if *k == ata(&p, v.token) { return format!("{n}'s token account") }
        }
        k.to_string()
    }
}

/// the fee for which the send's fee is exactly the minimum plus `extra` (it influences the number of preparation transactions)
fn exact_fee(w: &World, v: &mut Send, rate: u32, extra: i64) -> Option<Fees> {
    for _ in 0..20 {
        let f = fees(w, v, rate)?;
        let want = (f.min_fee() as i64).checked_add(extra).filter(|x| *x >= 0)? as u64;
        if v.fee == want { return Some(f) }
        v.fee = want;
    }
    None
}

/// what a send is charged by an accepted configuration: less than the minimum is refused, the minimum suffices, and the hash fee,
/// the compensation, the network fee and the subvention are transferred exactly
fn charged(s: &mut Src) -> Res {
    let t = template();
    let mut w = t.w.clone();
    let f = gen_fee(s);
    let rate = s.pick(&[0u32, 0, 1, 2, 3, 4]);
    w.fee = clone_fee(&f);
    let (f1, f2) = (clone_fee(&f), clone_fee(&f));
    with_acc!(w, pda::<GovernorAccount>(), GovernorAccount, |a| { a.set_commitment_batching_rate(&rate); a.set_program_fee(&f1); });
    with_acc!(w, pda_at::<FeeAccount>(0).0, FeeAccount, |a| a.set_program_fee(&f2));
    for t in [0u16, 1, 2, 5, 11] { if s.bool() { let p = s.range(1, 100_000_000_000u64) as i64; w.set_price(t, p, p as u64 / 1000, -(s.usize(3, 10) as i32)); } }
    let nullifiers: Vec<[u8; 32]> = (0..4).map(|_| gen_field(s)).collect();
    for (i, n) in nullifiers.iter().enumerate() { if nullifiers[..i].contains(n) { return Ok(()) } }
    let mut v = gen_send(s, &mut w, 0, &nullifiers, t);
    s.log(|| format!("{}, batching rate {rate}, {:?} of {} units of token {}, optional fee {}", show(&f), v.kind, v.amount, v.token, v.optional.1));
    // too little
    let short = s.pick(&[1i64, 1, 2, 1000]);
    if exact_fee(&w, &mut v, rate, -short).is_some() {
        let ixs = v.init_ixs(&w);
        check!(w.svm.clone().tx(&ixs, &[v.ofp]).is_err(), "too-low", "a fee of {} is accepted although {} is the minimum", v.fee, v.fee + short as u64);
        s.label("too low");
    }
    // the minimum
    let extra = s.pick(&[0i64, 0, 0, 1, 1000]);
    let Some(x) = exact_fee(&w, &mut v, rate, extra) else { return Ok(()) };
    if v.amount > 0 && (v.token == 0 && v.amount - v.optional.1 < rent_exempt(0) || v.kind == Recipient::Ata && v.amount < x.ata_rent_token + v.optional.1) { s.label("unreceivable"); return Ok(()) }
    // the accounts that pay
    w.fund(&v.ofp, x.hash_lamports + 10 * SOL, 0);
    if v.token == 0 { w.svm.airdrop(&collector_acc(0), x.subvention); } else { w.svm.put_token_account(collector_acc(v.token), TOKENS[v.token as usize].mint, pda::<FeeCollectorAccount>(), x.subvention); }
    let ixs = v.init_ixs(&w);
    let before = balances(&w);
    let r = w.svm.tx(&ixs, &[v.ofp]);
    if r.is_err() {
        // (only the limits of the token or an amount that cannot be represented may be in the way)
        let total = v.amount as u128 + v.fee as u128;
        let limits = elusiv::token::TOKENS[v.token as usize];
        check!(total > limits.max as u128 || total < limits.min as u128 || x.subvention > limits.max || x.network > limits.max || x.verification > limits.max || x.hash_token > limits.max || x.min_fee() > limits.max || x.ata_rent_token > limits.max, "minimum-refused", "a fee of {} is refused although {} is the minimum: {r:?}", v.fee, x.min_fee());
        s.label("limits");
        return Ok(())
    }
    let mut d = expected_fee_transfer(&v, &x);
    for (k, size) in [(v.account(), VerificationAccount::SIZE), (v.duplicate(), NullifierDuplicateAccount::SIZE)] { d.mv(v.ofp, k, 0, rent_exempt(size)); }
    if let Some(e) = difference(&before, &balances(&w), &d, name(&v)) { fail("fee-transfer", e)?; }
    let p = w.init_proof_ix(v.ofp, v.index, elusiv::types::Proof { a: zero_g1(), b: zero_g2(), c: zero_g1() });
    if w.svm.tx(&[p], &[v.ofp]).is_err() { fail("init-proof", "the proof cannot be set up")?; }
    let valid = s.chance(4, 5);
    with_acc!(w, v.account(), VerificationAccount, |a| a.set_is_verified(&ElusivOption::Some(valid)));
    // the settlement pays with the fee that was charged, whatever happened since
    // (the pool was paid the commitments that are spent)
    let pool = pool_acc(v.token);
    let gross = v.amount + v.fee;
    if v.token == 0 { w.svm.airdrop(&pool, gross); } else { let b = w.svm.token_balance(&pool); w.svm.put_token_account(pool, TOKENS[v.token as usize].mint, pda::<PoolAccount>(), b + gross); }
    let rents = w.svm.lamports(&v.account()) + w.svm.lamports(&v.duplicate());
    let d = if valid { expected_payout(&w, &v, &x, 0) } else { expected_forfeit(&v, &x, 0) };
    let mut d = d;
    let beneficiary = if valid { v.ofp } else { pda::<FeeCollectorAccount>() };
    for k in [v.account(), v.duplicate()] { d.mv(k, beneficiary, 0, w.svm.lamports(&k)); }
    let _ = rents;
    let before = balances(&w);
    let ixs = v.finalize_ixs(&mut w, &x, valid);
    let r = w.svm.tx(&ixs, &[v.ofp]);
    check!(r.is_ok(), "settlement", "the settlement fails: {r:?}");
    if let Some(e) = difference(&before, &balances(&w), &d, name(&v)) { fail("settlement", e)?; }
    s.label(if valid { "paid" } else { "forfeited" });
    let h = s.choices_hash();
    s.nontrivial(h);
    Ok(())
}

fn main() {
    kat();
    assert_eq!(MAX_COMMITMENT_BATCHING_RATE, 4);
    Suite::new("P12", "accepted fee configurations, representable basis point fees, computed send fees, configurations set by instruction")
        .assume("conversions between lamports and tokens are the subject of P13")
        .test("configuration", 60000, 3_000_000, configuration)
        .test("network-fee", 60000, 3_000_000, network)
        .test("proof-fee", 40000, 2_000_000, proof_fee)
        .test("init", 3000, 100_000, init)
        .test("charged", 1500, 40_000, charged)
        .main()
}
