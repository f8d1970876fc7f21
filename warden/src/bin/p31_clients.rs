//! Property P31: the client library of the warden network builds exactly the instructions its program demands, and reads its accounts completely.
use borsh::{BorshDeserialize, BorshSerialize};
use elusiv_types::accounts::{EagerAccountRepr, PDAAccount, ProgramAccount};
use elusiv_types::bytes::{BorshSerDeSized, ElusivOption};
use elusiv_warden_network::instruction::{ElusivWardenNetworkInstruction as Ix, SignerAccount, UserAccount, WritableSignerAccount, WritableUserAccount};
use std::net::Ipv4Addr;
use warden::*;

fn d<T: BorshDeserialize>(b: &[u8]) -> T { T::try_from_slice(b).unwrap() }
fn e<T: BorshSerialize>(t: &T) -> Vec<u8> { t.try_to_vec().unwrap() }
fn opt<T>(o: Option<T>) -> ElusivOption<T> { match o { Some(x) => ElusivOption::Some(x), None => ElusivOption::None } }

// ---- texts, as the model has them and as the library makes them ----

/// characters of one to four bytes
fn word(s: &mut Src, max: usize) -> String {
    let n = match s.below(5) { 0 => 0, 1 => max, 2 => s.below(max.min(3) + 1), _ => s.below(max + 1) };
    let mut t = String::new();
    let wide = s.bool();
    while t.len() < n {
        let c = if wide && s.chance(1, 3) { s.pick(&['ü', '€', '𝄞', '\u{0}', 'ß']) } else { (b' ' + s.below(95) as u8) as char };
        if t.len() + c.len_utf8() > n { t.push('x') } else { t.push(c) }
    }
    t
}
fn text<const N: usize>(t: &str) -> Text<N> {
    let mut data = [0; N];
    data[..t.len()].copy_from_slice(t.as_bytes());
    Text { len: t.len() as u64, data }
}
/// a text and the library's representation of it
fn both<const N: usize>(s: &mut Src) -> Result<(Text<N>, FixedLenString<N>), Fail> {
    let t = word(s, N);
    match guard(|| FixedLenString::<N>::try_from(t.clone())) {
        Ok(Ok(f)) => Ok((text(&t), f)),
        r => fail("text-refused", format!("a text of {} bytes (of {N}) is refused: {r:?}", t.len())),
    }
}

fn region(n: u8) -> WardenRegion {
    use WardenRegion::*;
    match n { 0 => Africa, 1 => America, 2 => Antarctica, 3 => Asia, 4 => Australia, 5 => Europe, _ => Other }
}

/// a configuration as the model has it and as a client makes it
fn config(s: &mut Src, key: Pubkey) -> Result<(Config, ElusivBasicWardenConfig), Fail> {
    let operator = s.bool().then(|| Pubkey::new_from_array(s.bytes()));
    let mut c = Config::gen(s, key, operator);
    c.attestation = s.bool();
    let (ident, x) = both::<256>(s)?;
    let (loc, y) = both::<14>(s)?;
    let (platform, z) = both::<256>(s)?;
    c.ident = ident;
    c.tz_loc = loc;
    c.platform = platform;
    let f = ElusivBasicWardenConfig {
        ident: x, key, operator: opt(operator), addr: Ipv4Addr::new(c.addr[0], c.addr[1], c.addr[2], c.addr[3]), rpc_port: c.rpc_port,
        tls_mode: match c.tls { 0 => TlsMode::NoTls, 1 => TlsMode::Optional, _ => TlsMode::Required }, uses_proxy: c.proxy,
        jurisdiction: c.jurisdiction, timezone: Timezone { area: c.tz_area, location: y }, region: region(c.region), version: c.version, platform: z,
        warden_features: WardenFeatures { apa: c.apa, attestation: c.attestation },
        basic_warden_features: BasicWardenFeatures { rpc: c.features[0], relay: c.features[1], instant_relay: c.features[2] }, tokens: c.tokens,
    };
    Ok((c, f))
}
fn proposal(s: &mut Src) -> Result<(Vec<u8>, ApaProposal), Fail> {
    let (proponent, target) = (Pubkey::new_from_array(s.bytes()), Pubkey::new_from_array(s.bytes()));
    let (role, level, timestamp) = (s.below(2) as u8, s.below(3) as u8, s.u64_edge());
    let token = s.bool().then(|| s.u64() as u16);
    let (reason, r) = both::<512>(s)?;
    let mut v = proponent.to_bytes().to_vec();
    v.push(role);
    v.extend(timestamp.to_le_bytes());
    v.extend(target.to_bytes());
    v.push(level);
    put_opt(&mut v, token.map(|t| t.to_le_bytes()).as_ref().map(|t| &t[..]), 2);
    reason.put(&mut v);
    let p = ApaProposal {
        proponent, proponent_role: if role == 0 { ApaProponentRole::Default } else { ApaProponentRole::TokenFreezingAuthority }, timestamp, target,
        level: match level { 0 => ApaLevel::Flag1, 1 => ApaLevel::Flag2, _ => ApaLevel::Outcast }, token_constraint: opt(token), reason: r,
    };
    Ok((v, p))
}

// ---- instructions ----

fn instructions(s: &mut Src) -> Res {
    let key = |s: &mut Src| Pubkey::new_from_array(s.bytes());
    let (a, b, c) = (key(s), key(s), key(s));
    let id = |s: &mut Src| if s.bool() { s.below(4) as u32 } else { s.u64_edge() as u32 };
    let (i, j, k) = (id(s), id(s), id(s));
    let year = s.pick(&[0u16, 1969, 1970, 2023, 2024, 65535]);
    let flag = s.bool();
    let kind = s.below(17);
    let (name, expected, built) = match kind {
        0 => ("Init", init(a), Ix::init_instruction(WritableSignerAccount(a))),
        1 => { let (m, f) = config(s, b)?; ("RegisterBasicWarden", register(a, i, &m), Ix::register_basic_warden_instruction(i, f, WritableSignerAccount(a))) }
        2 => ("UpdateBasicWardenState", update_state(a, i, flag), Ix::update_basic_warden_state_instruction(i, flag, SignerAccount(a))),
        3 => ("UpdateBasicWardenLut", update_lut(a, i, b), Ix::update_basic_warden_lut_instruction(i, SignerAccount(a), UserAccount(b))),
        4 => { let q: [u8; 558] = s.vec_u8(558).try_into().unwrap(); ("StartApaGenesisWardenApplication", apa_start(a, i, &q), Ix::start_apa_genesis_warden_application_instruction(i, QuoteStart(q), WritableSignerAccount(a))) }
        5 => { let q: [u8; 558] = s.vec_u8(558).try_into().unwrap(); ("CompleteApaGenesisWardenApplication", apa_complete(a, i, &q), Ix::complete_apa_genesis_warden_application_instruction(i, QuoteEnd(q), SignerAccount(a))) }
        6 => { let m = s.bytes(); ("ConfirmApaGenesisNetwork", apa_confirm(a, i, m), Ix::confirm_apa_genesis_network_instruction(i, m, SignerAccount(a))) }
        7 => ("CompleteApaGenesisNetwork", apa_finish(), Ix::complete_apa_genesis_network_instruction()),
        8 => { let ((m, f), (n, g)) = (both::<256>(s)?, both::<256>(s)?); let o = s.bool().then(|| s.u64() as u16); ("RegisterWardenOperator", register_operator(a, &m, &n, o), Ix::register_warden_operator_instruction(f, g, o, WritableSignerAccount(a))) }
        9 => ("ConfirmBasicWardenOperation", confirm_operation(a, i), Ix::confirm_basic_warden_operation_instruction(i, SignerAccount(a))),
        10 => ("OpenBasicWardenStatsAccount", open_stats(a, b, year), Ix::open_basic_warden_stats_account_instruction(year, UserAccount(a), WritableSignerAccount(b))),
        11 => ("TrackBasicWardenStats", track(a, year, flag), Ix::track_basic_warden_stats_instruction(year, flag, UserAccount(a))),
        12 => { let (m, f) = proposal(s)?; let t = f.target; ("ProposeApaProposal", propose(a, i, t, c, &m), Ix::propose_apa_proposal_instruction(i, f, WritableSignerAccount(a), UserAccount(c))) }
        13 => ("AddMetadataAttester", add_attester(a, i, b), Ix::add_metadata_attester_instruction(i, b, WritableSignerAccount(a))),
        14 => ("RevokeMetadataAttester", revoke_attester(a, i, b), Ix::revoke_metadata_attester_instruction(i, WritableSignerAccount(a), UserAccount(b))),
        15 => {
            let (loc, f) = both::<14>(s)?;
            let m = Metadata { asn: flag.then(|| k), tz_area: s.below(12) as u8, tz_loc: loc, region: s.below(7) as u8, proxy: s.bool() };
            ("AttestBasicWardenMetadata", attest(a, i, j, k, &m), Ix::attest_basic_warden_metadata_instruction(i, j, k, m.asn, Timezone { area: m.tz_area, location: f }, region(m.region), m.proxy, SignerAccount(a)))
        }
        _ => ("CloseProgramAccount", close(a, b, c), Ix::close_program_account_instruction(SignerAccount(a), WritableUserAccount(b), WritableUserAccount(c))),
    };
    s.log(|| name.into());
    s.label(name);
    check_eq!(built.program_id, expected.program_id, "program", "{name}: program");
    check!(built.data == expected.data, "data", "{name}: data {:?} instead of {:?}", built.data, expected.data);
    check_eq!(built.accounts.len(), expected.accounts.len(), "accounts", "{name}: number of accounts");
    for (n, (x, y)) in built.accounts.iter().zip(&expected.accounts).enumerate() {
        check!(x.pubkey == y.pubkey && x.is_signer == y.is_signer && x.is_writable == y.is_writable, "accounts", "{name}: account {n} is {x:?} instead of {y:?}");
    }
    // the program reads what the client has written, and nothing else
    let data = &expected.data;
    match guard(|| Ix::try_from_slice(data).map(|i| e(&i))) {
        Ok(Ok(v)) => check!(&v == data, "decode", "{name}: decodes as {v:?} instead of {data:?}"),
        r => return fail("decode", format!("{name}: is not understood: {r:?}")),
    }
    let mut other = data.clone();
    let fault = s.below(3);
    match fault { 0 => { other.pop(); } 1 => other.push(s.u8()), _ => other[0] = 17 + s.below(239) as u8 }
    check!(!matches!(guard(|| Ix::try_from_slice(&other).is_ok()), Ok(true)), "lenient", "{name}: {} is understood", ["a truncated instruction", "an instruction with excess bytes", "an unknown instruction"][fault]);
    s.nontrivial(fnv(data) ^ fnv(a.as_ref()));
    Ok(())
}

/// The transactions of a client do on the chain what they say, and a client reads their effects
fn histories(s: &mut Src) -> Res {
    let (p, key, op) = (user("payer"), user("key"), user("operator"));
    let mut w = World::empty(&[p, key, op]);
    let mut log: Vec<&str> = vec![];
    let mut send = |w: &mut World, name: &'static str, i: Instruction, by: Pubkey| -> Res {
        let r = w.svm.tx(&[i], &[by]);
        check!(r.is_ok(), "chain", "{name} fails: {r:?}");
        log.push(name);
        Ok(())
    };
    send(&mut w, "Init", Ix::init_instruction(WritableSignerAccount(p)), p)?;
    let (mut m, mut f) = config(s, key)?;
    // (what an accepted registration demands)
    m.attestation = false;
    f.warden_features.attestation = false;
    m.operator = Some(op);
    f.operator = ElusivOption::Some(op);
    let joined = w.now();
    send(&mut w, "RegisterBasicWarden", Ix::register_basic_warden_instruction(0, f, WritableSignerAccount(key)), key)?;
    let (mut active, mut confirmed, mut lut, mut years, mut made, mut operator) = (false, false, Pubkey::new_from_array([0; 32]), vec![], vec![], None);
    let mut since = joined;
    let mut hash = 0u64;
    for _ in 0..s.usize(1, 8) {
        let n = s.below(8);
        hash = hash.wrapping_mul(31) + n as u64 + 1;
        w.elapse(s);
        match n {
            0 | 1 => {
                active = s.bool();
                since = w.now();
                send(&mut w, "UpdateBasicWardenState", Ix::update_basic_warden_state_instruction(0, active, SignerAccount(key)), key)?
            }
            2 => { lut = Pubkey::new_from_array(s.bytes()); send(&mut w, "UpdateBasicWardenLut", Ix::update_basic_warden_lut_instruction(0, SignerAccount(key), UserAccount(lut)), key)? }
            3 => if !confirmed { confirmed = true; send(&mut w, "ConfirmBasicWardenOperation", Ix::confirm_basic_warden_operation_instruction(0, SignerAccount(op)), op)? },
            4 => {
                let y = s.range(1970, 2100) as u16;
                if !years.contains(&y) { years.push(y); send(&mut w, "OpenBasicWardenStatsAccount", Ix::open_basic_warden_stats_account_instruction(y, UserAccount(key), WritableSignerAccount(p)), p)? }
            }
            5 => if operator.is_none() {
                let ((a, x), (b, y), j) = (both::<256>(s)?, both::<256>(s)?, s.bool().then(|| s.u64() as u16));
                send(&mut w, "RegisterWardenOperator", Ix::register_warden_operator_instruction(x, y, j, WritableSignerAccount(op)), op)?;
                operator = Some((a, b, j));
            },
            _ => {
                let (_, mut f) = proposal(s)?;
                f.proponent_role = ApaProponentRole::Default;
                f.token_constraint = opt(s.bool().then(|| s.below(TOKENS - 1) as u16));
                let id = made.len() as u32;
                send(&mut w, "ProposeApaProposal", Ix::propose_apa_proposal_instruction(id, f.clone(), WritableSignerAccount(p), UserAccount(key)), p)?;
                f.proponent = p;
                f.timestamp = w.now();
                made.push(f);
            }
        }
    }
    for x in &log { s.log(|| x.to_string()); s.label(*x); }
    // read by a client
    let read = |k: Pubkey| w.svm.data(&k).to_vec();
    let r = match guard(|| BasicWardenAccountEager::new(read(<BasicWardenAccount as PDAAccount>::find(Some(0)).0))) { Ok(Ok(r)) => r, r => return fail("read", format!("the account cannot be read: {}", r.is_err())) };
    let mut expected = vec![];
    m.put(&mut expected);
    check!(e(&r.warden.config) == expected, "read", "the configuration is {:?}, registered {m:?}", r.warden.config);
    check_eq!((r.warden.is_active, r.warden.is_operator_confirmed, r.warden.lut), (active, confirmed, lut), "read", "state");
    check_eq!((r.warden.join_timestamp, r.warden.asn.option(), r.warden.is_metadata_valid.option()), (joined, None, None), "read", "joining and metadata");
    if active { check!(r.warden.activation_timestamp >= joined && r.warden.activation_timestamp <= since, "read", "activation at {}", r.warden.activation_timestamp); }
    check_eq!(BasicWardenMapAccountEager::new(read(<BasicWardenMapAccount as PDAAccount>::find_with_pubkey(key, None).0)).map(|a| a.warden_id).ok(), Some(0), "read", "id of the key");
    check_eq!(WardensAccountEager::new(read(<WardensAccount as PDAAccount>::find(None).0)).map(|a| a.next_warden_id).ok(), Some(1), "read", "next id");
    for y in &years { check_eq!(BasicWardenStatsAccountEager::new(read(<BasicWardenStatsAccount as PDAAccount>::find_with_pubkey(key, Some(*y as u32)).0)).map(|a| (a.year, a.store.total, a.send.total, a.migrate.total)).ok(), Some((*y, 0, 0, 0)), "read", "statistics of {y}"); }
    check_eq!(ApaProposalsAccountEager::new(read(<ApaProposalsAccount as PDAAccount>::find(None).0)).map(|a| a.number_of_proposals).ok(), Some(made.len() as u32), "read", "number of proposals");
    for (i, f) in made.iter().enumerate() {
        let r = ApaProposalAccountEager::new(read(<ApaProposalAccount as PDAAccount>::find(Some(i as u32)).0)).map(|a| a.proposal).ok();
        check!(r.as_ref() == Some(f), "read", "proposal {i} is {r:?} instead of {f:?}");
        check!(ApaTargetMapAccountEager::new(read(<ApaTargetMapAccount as PDAAccount>::find_with_pubkey(f.target, None).0)).is_ok(), "read", "the account of the target of proposal {i}");
    }
    if let Some((a, b, j)) = operator {
        let mut data = read(<WardenOperatorAccount as PDAAccount>::find_with_pubkey(op, None).0);
        let o = match WardenOperatorAccount::new(&mut data) { Ok(o) => o, Err(_) => return fail("read", "the operator's account cannot be read".to_string()) };
        let (mut x, mut y) = (vec![], vec![]);
        a.put(&mut x);
        b.put(&mut y);
        check!((o.get_key(), e(&o.get_ident()), e(&o.get_url()), o.get_jurisdiction().option()) == (op, x, y, j), "read", "the operator is read as another one");
    }
    s.nontrivial(fnv(&expected) ^ hash);
    Ok(())
}

// ---- values ----

fn string<const N: usize>(s: &mut Src) -> Res {
    let t = match s.below(3) {
        0 => word(s, N + 8),
        1 => { let extra = s.below(4); let mut t = word(s, N); while t.len() < N + extra { t.push('y') } t }
        _ => word(s, N),
    };
    let n = t.len();
    let r = guard(|| FixedLenString::<N>::try_from(t.clone()));
    check_eq!(<FixedLenString<N> as BorshSerDeSized>::SIZE, 8 + N, "size", "size of a text");
    match r {
        Ok(Ok(f)) => {
            check!(n <= N, "too-long", "a text of {n} bytes is accepted (of {N})");
            let mut v = vec![];
            text::<N>(&t).put(&mut v);
            check!(e(&f) == v, "text", "{t:?} is encoded as {:?}", e(&f));
            check!(d::<FixedLenString<N>>(&v) == f, "text", "{t:?} is decoded as another value");
        }
        Ok(Err(_)) => check!(n > N, "text-refused", "a text of {n} bytes is refused (of {N})"),
        Err(_) => return fail("panic", format!("a text of {n} bytes (of {N}) panics")),
    }
    s.log(|| format!("{n} bytes (of {N}): {t:?}"));
    s.label(if n > N { "too long" } else if n == N { "full" } else { "shorter" });
    if n > 0 { s.nontrivial(fnv(t.as_bytes()) ^ N as u64); }
    Ok(())
}

const AREAS: [(&str, u8); 11] = [("Africa", 0), ("America", 1), ("Antarctica", 2), ("Arctic", 5), ("Asia", 3), ("Atlantic", 1), ("Australia", 4), ("Europe", 5), ("Etc", 6), ("Indian", 3), ("Pacific", 3)];

fn values(s: &mut Src) -> Res {
    match s.below(9) {
        0 => return string::<256>(s),
        1 => return string::<14>(s),
        2 => return string::<512>(s),
        3 => {
            let k = Pubkey::new_from_array(s.bytes());
            let (m, f) = config(s, k)?;
            let mut v = vec![];
            m.put(&mut v);
            check_eq!(<ElusivBasicWardenConfig as BorshSerDeSized>::SIZE, v.len(), "size", "size of a configuration");
            check!(e(&f) == v, "config", "a configuration is encoded as {:?} instead of {v:?}", e(&f));
            check!(d::<ElusivBasicWardenConfig>(&v) == f, "config", "a configuration is decoded as another one");
            s.label("configuration");
            s.nontrivial(fnv(&v));
        }
        4 => {
            let (v, f) = proposal(s)?;
            check_eq!(<ApaProposal as BorshSerDeSized>::SIZE, v.len(), "size", "size of a proposal");
            check!(e(&f) == v, "proposal", "a proposal is encoded as {:?} instead of {v:?}", e(&f));
            check!(d::<ApaProposal>(&v) == f, "proposal", "a proposal is decoded as another one");
            s.label("proposal");
            s.nontrivial(fnv(&v));
        }
        5 => {
            // an unknown member of an enumeration is refused
            let n = s.u8();
            let r = |ok: bool, of: u8, name: &str| -> Res { check!(ok == (n < of), "enum", "{name}: {n} (of {of}): {ok}"); Ok(()) };
            r(WardenRegion::try_from_slice(&[n]).is_ok(), 7, "region")?;
            r(TlsMode::try_from_slice(&[n]).is_ok(), 3, "TLS mode")?;
            r(ApaLevel::try_from_slice(&[n]).is_ok(), 3, "level")?;
            r(ApaProponentRole::try_from_slice(&[n]).is_ok(), 2, "role")?;
            for i in 0..7 { check_eq!(e(&region(i)), vec![i], "enum", "region {i}"); }
            s.label("enumeration");
            s.nontrivial(n as u64);
        }
        6 | 7 => {
            // areas of the tz database
            let (mut t, mut r) = (word(s, 12), None);
            if s.chance(3, 4) {
                let (a, b) = s.pick(&AREAS);
                t = a.to_string();
                r = Some(b);
                match s.below(8) {
                    0 => { t = t.to_lowercase(); r = None }
                    1 => { t.push(s.pick(&[' ', '/', 's'])); r = None }
                    2 => { t.pop(); r = None }
                    _ => {}
                }
            }
            if AREAS.iter().any(|x| x.0 == t) && r.is_none() { r = AREAS.iter().find(|x| x.0 == t).map(|x| x.1) }
            let x = WardenRegion::from_tz_timezone_area(&t);
            check!(x == r.map(region), "area", "the area {t:?} is in {x:?} instead of {:?}", r.map(region));
            s.label(if r.is_some() { "area" } else { "unknown area" });
            s.nontrivial(fnv(t.as_bytes()));
        }
        _ => {
            let (a, b): ([u8; 558], [u8; 558]) = (s.vec_u8(558).try_into().unwrap(), s.vec_u8(558).try_into().unwrap());
            let q = QuoteStart(a).join(&QuoteEnd(b));
            check!(q.0[..] == [a, b].concat()[..], "quote", "the halves are joined as another quote");
            check!(QuoteStart(a).user_data_bytes()[..] == a[400..432], "quote", "user data {:?}", QuoteStart(a).user_data_bytes());
            s.label("quote");
            s.nontrivial(fnv(&a));
        }
    }
    Ok(())
}

// ---- accounts ----

#[derive(Clone, Copy)]
enum K { B(usize), Opt(usize), Warden, Proposal }
use K::*;
impl K {
    fn size(self) -> usize { match self { B(n) => n, Opt(n) => n + 1, Warden => 707, Proposal => 597 } }
    fn gen(self, s: &mut Src) -> Result<Vec<u8>, Fail> {
        fn b(s: &mut Src, n: usize) -> Vec<u8> { match s.below(8) { 0 => vec![0; n], 1 => vec![255; n], _ => s.vec_u8(n) } }
        let v = match self {
            B(n) => b(s, n),
            Opt(n) => if s.bool() { [vec![1], b(s, n)].concat() } else { vec![0; n + 1] },
            Warden => {
                let (k, o) = (Pubkey::new_from_array(s.bytes()), s.bool().then(|| Pubkey::new_from_array(s.bytes())));
                let mut m = warden::Warden::new(Config::gen(s, k, o), s.u64());
                m.config.attestation = s.bool();
                m.lut = Pubkey::new_from_array(s.bytes());
                m.asn = s.bool().then(|| s.u64() as u32);
                m.op_confirmed = s.bool();
                m.meta_valid = s.bool().then(|| s.bool());
                m.active = s.bool();
                m.activation = s.u64();
                m.bytes(0)[2..].to_vec()
            }
            Proposal => proposal(s)?.0,
        };
        assert_eq!(v.len(), self.size(), "harness: size");
        Ok(v)
    }
}

macro_rules! account {
    ($fname:ident, $ty:ident, $eager:expr, [$( ($name:literal, $kind:expr, $get:expr, $set:expr) ),* $(,)?]) => {
        fn $fname(s: &mut Src) -> Res {
            type Get = fn(&$ty) -> Vec<u8>;
            type Set = fn(&mut $ty, &[u8]);
            let fields: Vec<(&str, K, Get, Set)> = vec![$( ($name, $kind, $get, $set) ),*];
            let eager: Option<fn(Vec<u8>) -> Result<Vec<u8>, std::io::Error>> = $eager;
            let at: Vec<usize> = fields.iter().scan(2, |a, f| { let x = *a; *a += f.1.size(); Some(x) }).collect();
            let size = fields.iter().fold(2, |a, f| a + f.1.size());
            let ty = stringify!($ty);
            check_eq!(<$ty as SizedAccount>::SIZE, size, "size", "{ty}: size");
            let mut model = vec![s.u8(), s.u8()];
            for f in &fields { model.extend(f.1.gen(s)?); }
            let mut data = model.clone();
            let mut other = model.clone();
            match s.below(3) { 0 => { other.pop(); } 1 => other.push(0), _ => other.truncate(1) }
            check!($ty::new(&mut other).is_err(), "other-size", "{ty}: accepts {} bytes (of {size})", other.len());
            let mut hash = fnv(&model);
            for _ in 0..s.usize(1, 6) {
                let f = s.below(fields.len());
                let (name, kind, get, set) = &fields[f];
                let range = at[f]..at[f] + kind.size();
                let mut a = match guard(|| $ty::new(&mut data).is_ok()) { Ok(true) => $ty::new(&mut data).unwrap(), _ => return fail("new", format!("{ty}: {size} bytes are refused")) };
                if s.bool() {
                    let v = kind.gen(s)?;
                    s.log(|| format!("set {name} = {v:02x?}"));
                    if guard(|| set(&mut a, &v)).is_err() { return fail("set", format!("{ty}: setting {name} panics")) }
                    model[range.clone()].copy_from_slice(&v);
                    hash ^= fnv(&v);
                }
                match guard(|| get(&a)) {
                    Ok(v) => check!(v == model[range.clone()], "get", "{ty}: {name} reads {v:02x?} instead of {:02x?}", &model[range]),
                    Err(_) => return fail("get", format!("{ty}: reading {name} panics")),
                }
                drop(a);
                if let Some(x) = (0..size).find(|x| data[*x] != model[*x]) { return fail("bytes", format!("{ty}: byte {x} is {}, expected {}", data[x], model[x])) }
            }
            if let Some(eager) = eager {
                let mut other = model.clone();
                if s.bool() { other.push(s.u8()); } else { other.pop(); }
                check!(!matches!(guard(|| eager(other.clone())), Ok(Ok(_))), "eager-size", "{ty}: an eager representation of {} bytes (of {size})", other.len());
                match guard(|| eager(model.clone())).and_then(|r| r.map_err(|e| e.to_string())) {
                    Ok(v) => check!(v == model, "eager", "{ty}: the eager representation is {v:02x?} instead of {model:02x?}"),
                    Err(m) => return fail("eager-err", format!("{ty}: no eager representation of a valid account ({m})")),
                }
            }
            s.label(ty);
            s.nontrivial(hash);
            Ok(())
        }
    };
}
macro_rules! eager { ($t:ident) => { Some(|b: Vec<u8>| Ok(e(&<$t as EagerAccountRepr>::new(b)?))) }; }

account!(wardens, WardensAccount, eager!(WardensAccountEager), [("next_warden_id", B(4), |a| e(&a.get_next_warden_id()), |a, b| a.set_next_warden_id(&d(b)))]);
account!(warden_, BasicWardenAccount, eager!(BasicWardenAccountEager), [("warden", Warden, |a| e(&a.get_warden()), |a, b| a.set_warden(&d(b)))]);
account!(warden_map, BasicWardenMapAccount, eager!(BasicWardenMapAccountEager), [("warden_id", B(4), |a| e(&a.get_warden_id()), |a, b| a.set_warden_id(&d(b)))]);
account!(stats, BasicWardenStatsAccount, eager!(BasicWardenStatsAccountEager), [
    ("year", B(2), |a| e(&a.get_year()), |a, b| a.set_year(&d(b))),
    ("last_activity_timestamp", B(8), |a| e(&a.get_last_activity_timestamp()), |a, b| a.set_last_activity_timestamp(&d(b))),
    ("store", B(1468), |a| e(&a.get_store()), |a, b| a.set_store(&d(b))),
    ("send", B(1468), |a| e(&a.get_send()), |a, b| a.set_send(&d(b))),
    ("migrate", B(1468), |a| e(&a.get_migrate()), |a, b| a.set_migrate(&d(b))),
]);
account!(attester, BasicWardenAttesterMapAccount, None, [("warden_id", B(4), |a| e(&a.get_warden_id()), |a, b| a.set_warden_id(&d(b)))]);
account!(apa_warden, ApaWardenAccount, None, [
    ("warden_id", B(4), |a| e(&a.get_warden_id()), |a, b| a.set_warden_id(&d(b))),
    ("network_member_index", B(4), |a| e(&a.get_network_member_index()), |a, b| a.set_network_member_index(&d(b))),
]);
account!(operator, WardenOperatorAccount, None, [
    ("key", B(32), |a| e(&a.get_key()), |a, b| a.set_key(&d(b))),
    ("ident", B(264), |a| e(&a.get_ident()), |a, b| a.set_ident(&d(b))),
    ("url", B(264), |a| e(&a.get_url()), |a, b| a.set_url(&d(b))),
    ("jurisdiction", Opt(2), |a| e(&a.get_jurisdiction()), |a, b| a.set_jurisdiction(&d(b))),
]);
account!(proposal_, ApaProposalAccount, eager!(ApaProposalAccountEager), [("proposal", Proposal, |a| e(&a.get_proposal()), |a, b| a.set_proposal(&d(b)))]);
account!(target_map, ApaTargetMapAccount, eager!(ApaTargetMapAccountEager), [("proposal_id", Opt(4), |a| e(&a.get_proposal_id()), |a, b| a.set_proposal_id(&d(b)))]);
account!(proposals, ApaProposalsAccount, eager!(ApaProposalsAccountEager), [("number_of_proposals", B(4), |a| e(&a.get_number_of_proposals()), |a, b| a.set_number_of_proposals(&d(b)))]);

fn accounts(s: &mut Src) -> Res {
    const T: [fn(&mut Src) -> Res; 10] = [wardens, warden_, warden_map, stats, attester, apa_warden, operator, proposal_, target_map, proposals];
    T[s.weighted(&[1, 4, 1, 3, 1, 2, 3, 4, 2, 1])](s)
}

/// The quotes a client verifies, for any state of the APA network's account
fn quotes(s: &mut Src) -> Res {
    let mut data = vec![s.u8(), s.u8()];
    let count = s.below(7);
    data.extend((count as u32).to_le_bytes());
    put_opt(&mut data, s.bool().then(|| s.bytes::<32>()).as_ref().map(|k| &k[..]), 32);
    data.extend(s.vec_u8(4 * 6));
    let full = s.bool();
    let starts: Vec<Vec<u8>> = (0..6).map(|_| s.vec_u8(558)).collect();
    let ends: Vec<Option<Vec<u8>>> = (0..6).map(|i| if full || (i < count && s.chance(2, 3)) || s.chance(1, 12) { Some(s.vec_u8(558)) } else { None }).collect();
    for x in &starts { data.extend(x) }
    for x in &ends { put_opt(&mut data, x.as_deref(), 558) }
    data.extend(s.vec_u8(32 * 6));
    let all = s.bool();
    let confirmed: Vec<bool> = (0..6).map(|i| (all && i < count) || s.bool()).collect();
    data.extend(confirmed.iter().map(|b| *b as u8));
    check_eq!(<ApaWardenNetworkAccount as SizedAccount>::SIZE, data.len(), "size", "size of the APA network's account");
    let before = data.clone();
    let a = match guard(|| ApaWardenNetworkAccount::new(&mut data).is_ok()) { Ok(true) => ApaWardenNetworkAccount::new(&mut data).unwrap(), _ => return fail("new", "the APA network's account is refused".to_string()) };
    let expected: Vec<Vec<u8>> = (0..count).filter_map(|i| ends[i].as_ref().map(|e| [&starts[i][..], &e[..]].concat())).collect();
    let r = match guard(|| (a.get_all_quotes().into_iter().map(|q| q.0.to_vec()).collect::<Vec<_>>(), a.confirmation_message(), a.is_application_phase(), a.is_confirmation_phase(), a.is_confirmed())) { Ok(r) => r, Err(m) => return fail("panic", format!("reading the APA network panics: {m}")) };
    check!(r.0 == expected, "quotes", "{} quotes instead of {} (of {count} members), or other ones", r.0.len(), expected.len());
    check_eq!(r.1, solana_program::hash::hash(&expected.concat()).to_bytes(), "message", "confirmation message");
    let application = ends.iter().any(|e| e.is_none());
    let done = !application && confirmed[..count].iter().all(|c| *c);
    check_eq!((r.2, r.3, r.4), (application, !application && !done, done), "phase", "phase (application, confirmation, confirmed)");
    drop(a);
    check!(data == before, "bytes", "reading the APA network's account changes it");
    s.log(|| format!("{count} members, ends of {:?}, confirmed by {confirmed:?}", (0..6).filter(|i| ends[*i].is_some()).collect::<Vec<_>>()));
    s.label(if application { "application" } else if done { "confirmed" } else { "confirmation" });
    s.nontrivial(fnv(&before));
    Ok(())
}

fn addresses(s: &mut Src) -> Res {
    type Find = fn(Option<Pubkey>, Option<u32>) -> (Pubkey, u8);
    macro_rules! t { ($($t:ident $seed:literal),*) => { vec![$(($seed, (|k, o| <$t as PDAAccount>::find_with_pubkey_optional(k, o)) as Find)),*] } }
    let types: Vec<(&str, Find)> = t!(WardensAccount "Wardens", BasicWardenAccount "BasicWarden", BasicWardenMapAccount "BasicWardenMap", BasicWardenStatsAccount "BasicWardenStats", BasicWardenAttesterMapAccount "BasicWardenAttesterMap",
        ApaWardenAccount "ApaWarden", WardenOperatorAccount "WardenOperator", BasicWardenNetworkAccount "BasicWardenNetwork", ApaWardenNetworkAccount "ApaWardenNetwork", ApaProposalAccount "ApaProposal", ApaTargetMapAccount "ApaTargetMap", ApaProposalsAccount "ApaProposals");
    let (seed, find) = s.pick(&types);
    let key = s.bool().then(|| Pubkey::new_from_array(s.bytes()));
    let offset = s.bool().then(|| if s.bool() { s.range(0, 3) as u32 } else { s.u64_edge() as u32 });
    let mut seeds: Vec<Vec<u8>> = vec![seed.as_bytes().to_vec()];
    if let Some(k) = key { seeds.push(k.to_bytes().to_vec()); }
    if let Some(o) = offset { seeds.push(o.to_le_bytes().to_vec()); }
    let expected = Pubkey::find_program_address(&seeds.iter().map(|x| &x[..]).collect::<Vec<_>>(), &pid());
    check_eq!(find(key, offset), expected, "address", "{seed} {key:?} {offset:?}");
    s.log(|| format!("{seed} {key:?} {offset:?}"));
    s.label(seed);
    s.nontrivial(fnv(expected.0.as_ref()));
    Ok(())
}

fn main() {
    Suite::new("P31", "instruction: its data and accounts; account: its content and the values stored; value: its encoding; address: the address; history: configuration and instructions")
        .assume("the order of the accounts of an instruction is the one its definition documents (program-determined accounts are derived with independent seeds in the test `addresses`)")
        .test("instructions", 60_000, 1_500_000, instructions)
        .test("histories", 4_000, 150_000, histories)
        .test("values", 120_000, 3_000_000, values)
        .test("accounts", 60_000, 1_500_000, accounts)
        .test("quotes", 6_000, 150_000, quotes)
        .test("addresses", 3_000, 60_000, addresses)
        .main()
}
