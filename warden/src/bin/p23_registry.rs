//! Property P23: the registry of wardens and operators.
use warden::*;

const PEOPLE: [&str; 6] = ["anna", "bert", "carl", "dora", "emil", "poor"];
fn people() -> Vec<Pubkey> { PEOPLE.iter().map(|n| user(n)).collect() }

struct Sim { w: World, operators: BTreeMap<Pubkey, Vec<u8>>, initialised: bool }
impl Sim {
    fn warden_of(&self, k: &Pubkey) -> Option<u32> { self.w.wardens.iter().position(|w| w.config.key == *k).map(|i| i as u32) }
    fn pool(&self) -> Vec<Pubkey> {
        let mut v = people();
        v.extend(self.w.exp.keys());
        for p in people() { v.extend([map_acc(p), operator_acc(p)]); }
        for i in 0..3 { v.push(warden_acc(self.w.next + i)); }
        v.push(user("nothing"));
        v
    }
}

fn go(s: &mut Src, m: &mut Sim, what: String, mut i: Instruction, by: Pubkey, should: bool, free: &[usize], effect: impl FnOnce(&mut World)) -> Result<bool, Fail> {
    let mut signers = vec![by];
    let pool = m.pool();
    let spoiled = tamper(s, &mut i, &mut signers, free, &pool);
    // the last place may be executed twice in the same transaction elsewhere
    m.w.attempt(s, &format!("{what}{}", if spoiled { " (tampered)" } else { "" }), &[i], &signers, should && !spoiled, effect)
}

fn step(s: &mut Src, m: &mut Sim) -> Res {
    let by = user(s.pick(&PEOPLE));
    m.w.elapse(s);
    let now = m.w.now();
    match s.weighted(&[1, 6, 5, 3, 2, 4, 1]) {
        0 => {
            let new: Vec<(Pubkey, usize)> = World::initial().into_iter().map(|(k, d)| (k, d.len())).collect();
            let should = !m.initialised && m.w.affords(by, &new);
            if go(s, m, "init".into(), init(by), by, should, &[0], |w| { for (k, d) in World::initial() { w.create(by, k, d); } })? { m.initialised = true; }
        }
        1 => {
            let id = if s.chance(1, 8) { s.pick(&[m.w.next.wrapping_sub(1), m.w.next + 1, 0, u32::MAX]) } else { m.w.next };
            let key = if s.chance(1, 10) { user(s.pick(&PEOPLE)) } else { by };
            let operator = if s.bool() { Some(user(s.pick(&PEOPLE))) } else { None };
            let mut c = Config::gen(s, key, operator);
            c.attestation = s.chance(1, 12);
            let n = warden_acc(id);
            let size = 709;
            let should = m.initialised && id == m.w.next && key == by && m.warden_of(&key).is_none() && !c.attestation && m.w.free(&n) && m.w.net.len() < capacity()
                && m.w.affords(by, &[(n, size), (map_acc(key), 6)]);
            let c2 = c.clone();
            let done = go(s, m, format!("register {id} by {}", name(&by)), register(by, id, &c), by, should, &[], |w| {
                w.net.push(Member { id, features: c2.features, tokens: c2.tokens, region: c2.region });
                let mut v = head::<BasicWardenMapAccount>(Some(key), None);
                v.extend(id.to_le_bytes());
                w.wardens.push(Warden::new(c2, now));
                let d = w.wardens[id as usize].bytes(id);
                w.create(by, n, d);
                w.create(by, map_acc(key), v);
                w.set_next(id + 1);
                w.set_net();
            })?;
            if done { s.nontrivial(s.choices_hash()); }
        }
        2 | 3 if !m.w.wardens.is_empty() || s.chance(1, 20) => {
            let n = m.w.wardens.len();
            let id = s.below(n + 1) as u32;
            let by = if (id as usize) < n && s.chance(2, 3) { m.w.wardens[id as usize].config.key } else { by };
            let should = (id as usize) < n && m.w.wardens[id as usize].config.key == by;
            if s.bool() {
                let a = s.bool();
                go(s, m, format!("state {id} -> {a}"), update_state(by, id, a), by, should, &[], |w| {
                    let x = &mut w.wardens[id as usize];
                    if x.active != a { x.activation = now; }
                    x.active = a;
                    w.set_warden(id);
                })?;
            } else {
                let l = s.pick(&m.pool());
                go(s, m, format!("lut {id}"), update_lut(by, id, l), by, should, &[2], |w| { w.wardens[id as usize].lut = l; w.set_warden(id); })?;
            }
        }
        4 => {
            let (i, u) = (Text::gen(s), Text::gen(s));
            let j = if s.bool() { Some(s.u64() as u16) } else { None };
            let k = operator_acc(by);
            let mut v = head::<WardenOperatorAccount>(Some(by), None);
            v.extend(by.to_bytes());
            i.put(&mut v);
            u.put(&mut v);
            put_opt(&mut v, j.map(|j| j.to_le_bytes()).as_ref().map(|x| &x[..]), 2);
            let should = !m.operators.contains_key(&by) && m.w.affords(by, &[(k, v.len())]);
            let v2 = v.clone();
            if go(s, m, format!("operator {}", name(&by)), register_operator(by, &i, &u, j), by, should, &[], |w| w.create(by, k, v2))? { m.operators.insert(by, v); }
        }
        5 => {
            let n = m.w.wardens.len();
            let id = s.below(n + 1) as u32;
            let want = m.w.wardens.get(id as usize).map(|w| w.config.operator);
            let by = match want { Some(Some(k)) if s.chance(1, 2) => k, _ => by };
            let should = match want { Some(Some(k)) => k == by, Some(None) => true, None => false };
            go(s, m, format!("confirm {id} by {}", name(&by)), confirm_operation(by, id), by, should, if matches!(want, Some(None)) { &[0] } else { &[] }, |w| {
                let x = &mut w.wardens[id as usize];
                x.op_confirmed = true;
                x.config.operator = Some(by);
                w.set_warden(id);
            })?;
        }
        _ => match s.below(3) {
            0 => { let k = s.pick(&[warden_acc(m.w.next), map_acc(by), operator_acc(by)]); m.w.prefund(s, k, 300); }
            1 => {
                // nobody closes accounts of the program
                let k = s.pick(&m.w.exp.keys().copied().chain([by]).collect::<Vec<_>>());
                go(s, m, "close".into(), close(by, user("anna"), k), by, false, &[], |_| {})?;
            }
            _ => { let r = m.w.svm.tx(&[apa_finish()], &[]); check!(r.is_err(), "accepted", "the genesis network was completed"); }
        }
    }
    Ok(())
}
fn name(k: &Pubkey) -> &'static str { PEOPLE.iter().find(|n| user(n) == *k).copied().unwrap_or("?") }

fn sim(s: &mut Src) -> Sim {
    let mut p = people();
    let poor = p.pop().unwrap();
    let mut w = World::empty(&p);
    let l = s.pick(&[rent_exempt(0), 2 * rent_exempt(709), rent_exempt(709) + rent_exempt(6) + rent_exempt(0), rent_exempt(709) + rent_exempt(6), 10_000_000]);
    w.svm.airdrop(&poor, l);
    w.sync();
    Sim { w, operators: Default::default(), initialised: false }
}
fn history(s: &mut Src) -> Res {
    let mut m = sim(s);
    if s.chance(9, 10) {
        let by = user("anna");
        if m.w.attempt(s, "init", &[init(by)], &[by], true, |w| { for (k, d) in World::initial() { w.create(by, k, d); } })? { m.initialised = true; }
    }
    for _ in 0..s.usize(1, 25) { step(s, &mut m)?; }
    Ok(())
}
/// the last places of the network
fn full(s: &mut Src) -> Res {
    let mut m = sim(s);
    m.w = World::new(&people()[..5]);
    m.initialised = true;
    let n = capacity() - s.usize(0, 4);
    for i in 0..n { m.w.net.push(Member { id: i as u32, features: [i % 2 == 0; 3], tokens: [i % 3 == 0; TOKENS], region: (i % 7) as u8 }); }
    m.w.set_net();
    m.w.set_next(n as u32);
    m.w.force(network_acc());
    m.w.force(wardens_acc());
    let mut list = people();
    list.truncate(5);
    let order = s.permutation(5);
    for j in order {
        let by = list[j];
        let c = Config::gen(s, by, None);
        let id = m.w.next;
        let should = m.w.net.len() < capacity();
        let c2 = c.clone();
        let w0 = m.w.wardens.len();
        m.w.attempt(s, &format!("last {id}"), &[register(by, id, &c)], &[by], should, |w| {
            let now = w.now();
            w.net.push(Member { id, features: c2.features, tokens: c2.tokens, region: c2.region });
            let mut v = head::<BasicWardenMapAccount>(Some(by), None);
            v.extend(id.to_le_bytes());
            let d = Warden::new(c2, now).bytes(id);
            w.create(by, warden_acc(id), d);
            w.create(by, map_acc(by), v);
            w.set_next(id + 1);
            w.set_net();
        })?;
        let _ = w0;
        if !should { s.nontrivial(s.choices_hash()); s.label("network full"); }
    }
    Ok(())
}

fn main() {
    Suite::new("P23", "a history of initialisation, registrations, state and lookup-table updates, operator registrations and confirmations by six people, with wrong ids, keys, signers and accounts, in which at least one warden was registered; respectively the last places of the network with a refused warden")
        .assume("the svm crate models the Solana runtime: account creation, rent, signatures, privileges, atomic transactions, at most 10,240 bytes per created account")
        .test("registry", 30_000, 200_000, history)
        .test("capacity", 600, 4000, full)
        .main()
}
