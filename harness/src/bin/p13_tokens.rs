//! Property P13: amounts keep their token and value: token amounts obey the limits of the token table and exact checked arithmetic,
//! conversions between lamports and tokens equal the exact exchange value up to a tiny relative error, and only the token's own
//! trading price account, mint and token accounts are used.
use elusiv::token::*;
use elusiv_types::tokens::{verify_associated_token_account, verify_token_account, Price};
use harness::prelude::*;
use harness::world::*;
use solana_program::account_info::AccountInfo;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use std::str::FromStr;

fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, Fail> { guard(f).map_err(|e| Fail::Violation { sig: "panic".into(), msg: e }) }

fn with_info<R>(key: &Pubkey, owner: &Pubkey, data: &[u8], f: impl FnOnce(&AccountInfo) -> R) -> R {
    let (mut l, mut d) = (1u64, data.to_vec());
    f(&AccountInfo::new(key, false, false, &mut l, &mut d, owner, false, 0))
}

/// decimals as listed in Token.toml (lamports are base units themselves)
fn table() -> &'static Vec<(Pubkey, Pubkey, u8, u64, u64)> {
    static T: std::sync::OnceLock<Vec<(Pubkey, Pubkey, u8, u64, u64)>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let text = std::fs::read_to_string("/repo/Token.toml").expect("Token.toml");
        text.split("[[token]]").skip(1).map(|b| {
            let get = |k: &str| b.lines().find_map(|l| { let (n, v) = l.split_once('=')?; if n.trim() == k { Some(v.split('#').next().unwrap().trim().trim_matches('"').to_string()) } else { None } });
            let num = |k: &str| get(k).map(|v| v.replace('_', "").parse::<u64>().unwrap());
            (Pubkey::from_str(&get("mint").unwrap()).unwrap(), Pubkey::from_str(&get("pyth_usd_price_mainnet").unwrap()).unwrap(), num("decimals").unwrap_or(0) as u8, num("min").unwrap(), num("max").unwrap())
        }).collect()
    })
}

/// every token of the table is the one of Token.toml, and its limits are enforced
fn limits(s: &mut Src) -> Res {
    let t = table();
    check_eq!(TOKENS.len(), t.len(), "table", "number of tokens");
    let id = if s.chance(1, 10) { s.pick(&[t.len() as u16, t.len() as u16 + 1, u16::MAX, 255, 256]) } else { s.below(t.len()) as u16 };
    if id as usize >= t.len() {
        check!(Token::new_checked(id, s.u64_edge()).is_err() && elusiv_token(id).is_err(), "unknown-token", "token {id} does not exist, but is accepted");
        s.label("unknown");
        return Ok(());
    }
    let e = &TOKENS[id as usize];
    check!((e.mint, e.pyth_usd_price_key, e.decimals, e.min, e.max) == t[id as usize], "table", "token {id} differs from Token.toml");
    check!(elusiv_token(id) == Ok(*e), "table", "elusiv_token({id}) is another token");
    let a = match s.below(6) { 0 => s.u64_edge(), 1 => e.min, 2 => e.max, 3 => e.min - 1, 4 => e.max + 1, _ => s.range(e.min, e.max) };
    let r = Token::new_checked(id, a);
    s.log(|| format!("{a} of token {id} -> {}", r.is_ok()));
    check!(r.is_ok() == (e.min <= a && a <= e.max), "limits", "{a} of token {id} (limits {} to {}) -> {}", e.min, e.max, r.is_ok());
    if let Ok(v) = r { check!(v.amount() == a && v.token_id() == id, "value", "{a} of token {id} became {} of {}", v.amount(), v.token_id()); }
    // arithmetic
    let id2 = if s.chance(1, 4) { s.below(t.len()) as u16 } else { id };
    let b = match s.below(4) { 0 => s.u64_edge(), 1 => a, 2 => u64::MAX - a, _ => s.range(0, 1 << 40) };
    let (x, y) = (Token::new(id, a), Token::new(id2, b));
    let get = |r: Result<Token, TokenError>| r.ok().map(|t| (t.token_id(), t.amount()));
    let same = id == id2;
    check_eq!(get(x + y), if same { a.checked_add(b).map(|v| (id, v)) } else { None }, "add", "{a} of token {id} + {b} of token {id2}");
    check_eq!(get(x - y), if same { a.checked_sub(b).map(|v| (id, v)) } else { None }, "sub", "{a} of token {id} - {b} of token {id2}");
    check_eq!(x.enforce_token_equality(&y).ok(), if same { Some(id) } else { None }, "equality", "tokens {id} and {id2}");
    check_eq!(x.into_lamports().ok().map(|l| l.0), if id == 0 { Some(a) } else { None }, "lamports", "token {id} as lamports");
    check_eq!((Lamports(a) + Lamports(b)).ok().map(|l| l.0), a.checked_add(b), "add", "lamports {a} + {b}");
    check_eq!(get(Ok(Lamports(a).into_token_strict())), Some((0, a)), "lamports", "{a} lamports as token");
    let h = s.choices_hash();
    s.nontrivial(h);
    Ok(())
}

/// the oracle library keeps 28 bits: (mantissa, dropped digits)
fn norm(mut p: u128) -> (f64, i32) {
    let mut k = 0;
    while p > (1 << 28) - 1 { p /= 10; k += 1; }
    (p as f64, k)
}
const DROP: f64 = 3.8e-8;

/// bounds for a * x / y * 10^e, computed with 28 bit mantissas
fn bounds(a: u64, x: u64, y: u64, e: i32) -> (f64, f64) {
    let exact = a as f64 * x as f64 / y as f64 * 10f64.powi(e);
    let (ma, _) = norm(a as u128);
    let (mx, _) = norm(x as u128);
    let (my, _) = norm(y as u128);
    let (mp, _) = norm(ma as u128 * mx as u128);
    let quotient = (mp * 1e9 / my).floor();
    let low = if quotient < 1.0 { 0.0 } else { exact * (1.0 - 3.0 * DROP - 1.0 / quotient) };
    // (a dropped digit of the divisor raises the result)
    (low * (1.0 - 1e-12) - 1.0, exact * (1.0 + 2.0 * DROP + 1e-12))
}

fn gen_price(s: &mut Src) -> Price {
    let price = match s.below(6) { 0 => s.range(1, i64::MAX as u64) as i64, 1 => s.range(1, 1000) as i64, 2 => 1 << s.below(63), _ => s.range(1_000_000, 100_000_000_000) as i64 };
    let conf = match s.below(3) { 0 => 0, 1 => price as u64, _ => s.range(0, price as u64 / 100 + 1) };
    Price { price, conf, expo: if s.chance(1, 6) { s.range(0, 30) as i32 - 22 } else { -8 } }
}

/// conversions in both directions
fn convert(s: &mut Src) -> Res {
    let token = s.range(1, TOKENS.len() as u64 - 1) as u16;
    let dec = table()[token as usize].2 as i32;
    let (mut lp, mut tp) = (gen_price(s), gen_price(s));
    lp.expo -= 9;
    let odd = s.below(12);
    match odd { 0 => lp.price = -lp.price, 1 => tp.price = -tp.price, 2 => lp.price = 0, 3 => tp.price = 0, _ => {} }
    let amount = match s.below(4) { 0 => s.range(0, i64::MAX as u64), 1 => s.range(0, 100), _ => s.range(1000, 1 << 40) };
    let into_token = s.bool();
    let price = TokenPrice::new_from_price(lp, tp, token);
    check!(price.lamports_usd == lp && price.token_usd == tp && price.token_id == token, "price", "the price of token {token} changed");
    let got = no_panic(|| if into_token { price.lamports_into_token(&Lamports(amount), token).map(|t| { assert!(t.token_id() == token); t.amount() }) } else { price.token_into_lamports(Token::new(token, amount)).map(|l| l.0) })?;
    let what = || format!("{amount} {} at {}e{} USD per lamport and {}e{} USD per token {token}", if into_token { "lamports into the token" } else { "of the token into lamports" }, lp.price, lp.expo, tp.price, tp.expo);
    s.log(|| format!("{} = {got:?}", what()));
    // other tokens are never converted with this price
    let other = (token + 1) % TOKENS.len() as u16;
    check!(price.lamports_into_token(&Lamports(amount), other).is_err() && price.token_into_lamports(Token::new(other, amount)).is_err(), "other-token", "token {other} is converted with the price of token {token}");
    let (num, den, e) = if into_token { (lp, tp, lp.expo - tp.expo + dec) } else { (tp, lp, tp.expo - lp.expo - dec) };
    if den.price == 0 { check!(got.is_err(), "zero-price", "converted with a price of zero: {}", what()); s.label("zero price"); return Ok(()) }
    if num.price < 0 || den.price < 0 {
        // (tiny amounts vanish)
        check!(got.is_err() || got == Ok(0), "negative-price", "converted with a negative price: {} = {got:?}", what());
        s.label("negative price");
        return Ok(());
    }
    if num.price == 0 { check!(got.is_err() || got == Ok(0), "value", "{} = {got:?}", what()); return Ok(()) }
    let (lo, hi) = bounds(amount, num.price.unsigned_abs(), den.price.unsigned_abs(), e);
    match got {
        Ok(v) => {
            check!(v as f64 >= lo && v as f64 <= hi, "value", "{} = {v}, expected {lo} to {hi}", what());
            s.label(if into_token { "into token" } else { "into lamports" });
            if v > 1000 { let h = s.choices_hash(); s.nontrivial(h); }
        }
        Err(_) => { check!(hi * 8.0 > i64::MAX as f64, "refused", "not convertible: {}", what()); s.label("too large"); }
    }
    Ok(())
}

/// lamports are themselves, and nobody gains by converting back and forth
fn roundtrip(s: &mut Src) -> Res {
    let a = s.range(100_000, 1 << 45);
    let p0 = TokenPrice::new_lamports();
    check!(p0.lamports_into_token(&Lamports(a), 0).ok().map(|t| t.amount()) == Some(a) && p0.token_into_lamports(Token::new(0, a)).ok().map(|l| l.0) == Some(a), "lamports", "{a} lamports are not {a} lamports");
    check!(p0.lamports_into_token(&Lamports(a), 1).is_err(), "other-token", "the lamports price converts tokens");
    let token = s.range(1, TOKENS.len() as u64 - 1) as u16;
    let mut p = |e: i32| Price { price: s.range(10_000_000, 100_000_000_000) as i64, conf: s.range(0, 10_000), expo: e };
    let price = TokenPrice::new_from_price(p(-17), p(-8), token);
    let Ok(t) = price.lamports_into_token(&Lamports(a), token) else { return Ok(()) };
    let Ok(back) = price.token_into_lamports(t) else { return fail("refused", format!("{} of token {token} cannot be converted back", t.amount())) };
    s.log(|| format!("{a} lamports -> {} of token {token} -> {} lamports", t.amount(), back.0));
    check!(back.0 as f64 <= a as f64 * (1.0 + 4.0 * DROP), "gain", "{a} lamports become {} of token {token}, and those {} lamports", t.amount(), back.0);
    if t.amount() > 1_000_000 {
        check!(back.0 as f64 >= a as f64 * (1.0 - 2e-6), "loss", "{a} lamports become {} of token {token}, and those {} lamports", t.amount(), back.0);
        let h = s.choices_hash();
        s.nontrivial(h);
    }
    Ok(())
}

/// which price accounts are used
fn prices(s: &mut Src) -> Res {
    let token = s.below(TOKENS.len()) as u16;
    let (sol, tok) = (gen_price(s), gen_price(s));
    let wrong = |s: &mut Src, right: Pubkey| if s.chance(1, 5) { match s.below(3) { 0 => user("price"), 1 => TOKENS[0].pyth_usd_price_key, _ => { let t = s.choose(&TOKENS); t.pyth_usd_price_key } } } else { right };
    let (rk0, rk1) = (TOKENS[0].pyth_usd_price_key, TOKENS[token as usize].pyth_usd_price_key);
    let (k0, k1) = (wrong(s, rk0), wrong(s, rk1));
    let damage = |s: &mut Src, p: &Price| -> (Vec<u8>, bool) {
        let mut d = price_account(p.price, p.conf, p.expo);
        match s.below(12) {
            0 => { let n = s.below(d.len()); d.truncate(n); (d, false) }
            // magic, version, account type
            1 => { let i = s.below(12); d[i] ^= 1 << s.below(8); (d, false) }
            2 => {
                // the aggregate's status: unknown, halted, auction
                let mut a: pyth_sdk_solana::state::PriceAccount = *bytemuck::from_bytes(&d[..]);
                a.agg.status = s.pick(&[pyth_sdk_solana::PriceStatus::Unknown, pyth_sdk_solana::PriceStatus::Halted, pyth_sdk_solana::PriceStatus::Auction]);
                (bytemuck::bytes_of(&a).to_vec(), false)
            }
            3 => (vec![], false),
            _ => (d, true),
        }
    };
    let ((d0, ok0), (d1, ok1)) = (damage(s, &sol), damage(s, &tok));
    let o = user("pyth");
    let r = no_panic(|| with_info(&k0, &o, &d0, |a| with_info(&k1, &o, &d1, |b| TokenPrice::new(a, b, token))))?;
    s.log(|| format!("token {token}: {k0} {k1} intact {ok0} {ok1} -> {}", r.is_ok()));
    let should = token == 0 || k0 == rk0 && k1 == rk1 && ok0 && ok1;
    check!(r.is_ok() == should, "price-account", "price of token {token} (SOL account right: {}, token account right: {}, intact: {ok0} {ok1}) -> {}", k0 == rk0, k1 == rk1, r.is_ok());
    if let Ok(p) = r {
        if token == 0 { check!(p.token_id == 0 && p.token_into_lamports(Token::new(0, 77)).map(|l| l.0) == Ok(77), "lamports", "lamports have a price"); return Ok(()) }
        check!(p.token_id == token, "price", "price of another token");
        for (got, raw, scale, n) in [(p.lamports_usd, sol, -9, "SOL"), (p.token_usd, tok, 0, "the token")] {
            let (g, w) = (got.price as f64 * 10f64.powi(got.expo), raw.price as f64 * 10f64.powi(raw.expo + scale));
            check!(g <= w * (1.0 + 1e-12) && g >= w * (1.0 - DROP), "price", "the price of {n} is {}e{}, used is {}e{}", raw.price, raw.expo + scale, got.price, got.expo);
        }
        let h = s.choices_hash();
        s.nontrivial(h);
    }
    Ok(())
}

/// which accounts can hold a token
fn accounts(s: &mut Src) -> Res {
    let token = s.below(TOKENS.len()) as u16;
    let mint = match s.below(4) { 0 => user("mint"), 1 => TOKENS[s.below(TOKENS.len())].mint, _ => TOKENS[token as usize].mint };
    let wallet = Pubkey::new_from_array(s.bytes::<32>());
    let state = s.below(4);
    let mut d = vec![0u8; 165];
    let acc = spl_token::state::Account {
        mint, owner: wallet, amount: s.u64(),
        state: match state { 0 => spl_token::state::AccountState::Uninitialized, 1 => spl_token::state::AccountState::Frozen, _ => spl_token::state::AccountState::Initialized },
        ..Default::default()
    };
    spl_token::state::Account::pack(acc, &mut d).unwrap();
    let damaged = s.below(6);
    match damaged { 0 => { let n = s.below(165); d.truncate(n); } 1 => d.push(0), 2 => d[108] = s.range(3, 255) as u8, _ => {} }
    let owner = s.pick(&[spl_token::ID, spl_token::ID, spl_token::ID, elusiv::id(), solana_program::system_program::ID, user("program")]);
    let r = no_panic(|| with_info(&user("account"), &owner, &d, |a| verify_token_account(a, token)))?;
    let usable = owner == spl_token::ID && damaged > 2 && state != 0 && mint == TOKENS[token as usize].mint;
    s.log(|| format!("token {token}, owner {owner}, mint {mint}, state {state}, damaged {damaged} -> {r:?}"));
    if token == 0 { check!(r == Ok(owner != spl_token::ID), "lamports-account", "an account owned by {owner} receives lamports: {r:?}"); }
    else { check!((r == Ok(true)) == usable, "token-account", "an account of mint {mint} owned by {owner} (state {state}, damaged: {}) is usable for token {token}: {r:?}", damaged <= 2); }
    // associated token accounts: address of (wallet, token program, mint)
    let t = &TOKENS[token as usize];
    let want = if token == 0 { wallet } else { Pubkey::find_program_address(&[&wallet.to_bytes(), &spl_token::ID.to_bytes(), &t.mint.to_bytes()], &spl_associated_token_account::ID).0 };
    let other = match s.below(4) { 0 => wallet, 1 => Pubkey::find_program_address(&[&wallet.to_bytes(), &spl_token::ID.to_bytes(), &mint.to_bytes()], &spl_associated_token_account::ID).0, 2 => user("account"), _ => want };
    check!(verify_associated_token_account(&wallet, &other, token) == Ok(other == want), "associated-account", "{other} as associated token account (token {token}) of {wallet}");
    if usable && token > 0 { let h = s.choices_hash(); s.nontrivial(h); }
    Ok(())
}

fn main() {
    Suite::new("P13", "known tokens, convertible amounts with a result above 1000, round trips above 10^6 units, accepted price accounts, usable token accounts")
        .assume("the confidence interval of a price does not exceed the price")
        .test("limits", 40000, 2_000_000, limits)
        .test("convert", 200000, 10_000_000, convert)
        .test("roundtrip", 40000, 2_000_000, roundtrip)
        .test("prices", 60000, 3_000_000, prices)
        .test("accounts", 10000, 300_000, accounts)
        .main()
}
