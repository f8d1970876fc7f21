//! Property P27: APA proposals.
use solana_program::program_option::COption;
use solana_program::program_pack::Pack;
use warden::*;

const PEOPLE: [&str; 4] = ["anna", "bert", "circle", "poor"];
const SIZE: usize = 599;

fn mint(t: usize) -> Pubkey { elusiv_types::tokens::TOKENS[t].mint }

#[derive(Clone)]
struct Proposal { proponent: Pubkey, role: u8, time: u64, target: Pubkey, level: u8, token: Option<u16>, reason: Text<512> }
impl Proposal {
    fn bytes(&self) -> Vec<u8> {
        let mut v = self.proponent.to_bytes().to_vec();
        v.push(self.role);
        v.extend(self.time.to_le_bytes());
        v.extend(self.target.to_bytes());
        v.push(self.level);
        put_opt(&mut v, self.token.map(|t| t.to_le_bytes()).as_ref().map(|t| &t[..]), 2);
        self.reason.put(&mut v);
        v
    }
}
fn proposals_bytes(n: u32) -> Vec<u8> { let mut v = head::<ApaProposalsAccount>(None, None); v.extend(n.to_le_bytes()); v }

fn world(s: &mut Src) -> (World, BTreeMap<Pubkey, Option<Pubkey>>) {
    let mut w = World::new(&[user("anna"), user("bert"), user("circle")]);
    let l = s.pick(&[rent_exempt(0), rent_exempt(SIZE), rent_exempt(SIZE) + rent_exempt(7), rent_exempt(SIZE) + rent_exempt(7) + rent_exempt(0), 100_000_000]);
    w.svm.airdrop(&user("poor"), l);
    // the mints and who may freeze their tokens
    let mut freeze = BTreeMap::new();
    for t in 1..TOKENS {
        let f = match s.below(4) { 0 => None, 1 => Some(user("anna")), _ => Some(user("circle")) };
        let mut d = vec![0; spl_token::state::Mint::LEN];
        spl_token::state::Mint { is_initialized: !s.chance(1, 20), decimals: 6, supply: 1, freeze_authority: match f { Some(k) => COption::Some(k), None => COption::None }, mint_authority: COption::Some(user("bert")) }.pack_into_slice(&mut d);
        let ok = d[45] == 1;
        w.svm.put_exempt(mint(t), spl_token::ID, d);
        freeze.insert(mint(t), if ok { f } else { None });
    }
    // a foreign mint of everybody
    let mut d = vec![0; spl_token::state::Mint::LEN];
    spl_token::state::Mint { is_initialized: true, freeze_authority: COption::Some(user("anna")), ..Default::default() }.pack_into_slice(&mut d);
    w.svm.put_exempt(user("own mint"), spl_token::ID, d);
    w.sync();
    (w, freeze)
}

fn history(s: &mut Src) -> Res {
    let (mut w, freeze) = world(s);
    let mut count = if s.chance(1, 6) { s.pick(&[1u32, 255, 65_535, 65_536, u32::MAX - 1, u32::MAX]) } else { 0 };
    w.exp.insert(proposals_acc(), proposals_bytes(count));
    w.force(proposals_acc());
    let mut made = 0;
    for _ in 0..s.usize(1, 10) {
        w.elapse(s);
        let by = user(s.pick(&PEOPLE));
        let target = user(s.pick(&["t0", "t1", "anna"]));
        let p = Proposal {
            // (both are set by the program)
            proponent: if s.bool() { user("circle") } else { Pubkey::new_from_array(s.bytes()) }, time: s.u64_edge(),
            role: s.below(2) as u8, target, level: s.below(3) as u8,
            token: if s.chance(2, 3) { Some(if s.chance(1, 6) { s.pick(&[0, TOKENS as u16, TOKENS as u16 + 1, u16::MAX]) } else { s.range(1, TOKENS as u64 - 1) as u16 }) } else { None },
            reason: Text::gen(s),
        };
        let m = match p.token { Some(t) if (1..TOKENS as u16).contains(&t) && s.chance(5, 6) => mint(t as usize), _ => s.pick(&[user("own mint"), mint(1), user("nothing"), user("anna")]) };
        let id = if s.chance(1, 8) { s.pick(&[count.wrapping_add(1), count.wrapping_sub(1), 0, u32::MAX]) } else { count };
        let (k, map) = (proposal_acc(id), target_acc(target));
        if s.chance(1, 10) && w.free(&k) { w.prefund(s, k, SIZE); }
        if s.chance(1, 10) && w.free(&map) { w.prefund(s, map, 7); }
        let valid = match (p.role, p.token) {
            (0, None) => true,
            (0, Some(t)) => (t as usize) < TOKENS,
            // the freezing authority of the constrained token
            (_, Some(t)) => t > 0 && (t as usize) < TOKENS && m == mint(t as usize) && freeze[&m] == Some(by),
            (_, None) => false,
        };
        let mut new = vec![(k, SIZE)];
        if w.free(&map) { new.push((map, 7)); }
        let should = id == count && count < u32::MAX && valid && w.free(&k) && w.affords(by, &new);
        let mut i = propose(by, id, target, m, &p.bytes());
        let mut signers = vec![by];
        let pool: Vec<Pubkey> = w.exp.keys().copied().chain([target_acc(user("t0")), target_acc(user("t1")), proposal_acc(count.wrapping_add(1)), user("anna"), user("bert")]).collect();
        let spoiled = tamper(s, &mut i, &mut signers, if p.role == 0 { &[0, 4] } else { &[4] }, &pool);
        let now = w.now();
        let recorded = Proposal { proponent: by, time: now, ..p.clone() };
        let opens = w.free(&map);
        let what = format!("propose {id} of {count}, role {}, token {:?}{}", p.role, p.token, if spoiled { " (tampered)" } else { "" });
        let svm_map = |w: &World| w.svm.data(&map).to_vec();
        if w.attempt(s, &what, &[i], &signers, should && !spoiled, |w| {
            let mut v = head::<ApaProposalAccount>(None, Some(id));
            v.extend(recorded.bytes());
            w.create(by, k, v);
            // (the test target_map decides which proposal the map names)
            let d = svm_map(w);
            let mut h = head::<ApaTargetMapAccount>(Some(target), None);
            h.extend(if d.len() == 7 { d[2..].to_vec() } else { vec![0; 5] });
            if opens { w.create(by, map, h) } else { w.exp.insert(map, h); }
            w.exp.insert(proposals_acc(), proposals_bytes(id + 1));
        })? {
            count += 1;
            made += 1;
            if p.role == 1 { s.label("by a freezing authority"); }
            let d = &w.exp[&map];
            let named = u32::from_le_bytes(d[3..7].try_into().unwrap());
            check!(d[2] == 0 || d[2] == 1 && named < count, "map", "the map of the target names an impossible proposal");
        }
    }
    if made > 0 { s.nontrivial(s.choices_hash()); }
    Ok(())
}
/// the map of a target names its proposal with the highest level
fn target_map(s: &mut Src) -> Res {
    let (mut w, _) = world(s);
    let by = user("anna");
    let mut best: BTreeMap<Pubkey, (u8, Vec<u32>)> = Default::default();
    for id in 0..s.usize(1, 5) as u32 {
        let target = user(s.pick(&["t0", "t1"]));
        let p = Proposal { proponent: by, time: 0, role: 0, target, level: s.below(3) as u8, token: None, reason: Text { len: 0, data: [0; 512] } };
        if w.svm.tx(&[propose(by, id, target, by, &p.bytes())], &[by]).is_err() { return Ok(()) }
        let b = best.entry(target).or_default();
        if b.1.is_empty() || p.level > b.0 { *b = (p.level, vec![id]); } else if p.level == b.0 { b.1.push(id); }
        for (t, (_, ids)) in &best {
            let d = w.svm.data(&target_acc(*t));
            let named = if d[2] == 1 { Some(u32::from_le_bytes(d[3..7].try_into().unwrap())) } else { None };
            s.nontrivial(s.choices_hash());
            check!(named.map(|n| ids.contains(&n)).unwrap_or(false), if named.is_none() { "target-map-empty" } else { "target-map" }, "the map of a target names {named:?}, its proposals with the highest level are {ids:?}");
        }
    }
    Ok(())
}

fn main() {
    Suite::new("P27", "a history of proposals by four people about three targets, with wrong ids, tokens, roles, mints and accounts, in which at least one was accepted")
        .test("proposals", 40_000, 400_000, history)
        .test("target_map", 300, 2000, target_map)
        .main()
}
