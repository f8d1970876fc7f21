//! Property P26: the genesis of the APA network.
use warden::*;

const PEOPLE: [&str; 9] = ["w0", "w1", "w2", "w3", "w4", "w5", "w6", "w7", "w8"];
const KEYS: [&str; 4] = ["x0", "x1", "x2", "x3"];
const HALF: usize = 558;
const SEATS: usize = 6;

#[derive(Clone)]
struct Seat { id: u32, start: Vec<u8>, end: Option<Vec<u8>>, confirmed: bool }
#[derive(Clone, Default)]
struct Apa { seats: Vec<Seat> }
impl Apa {
    fn complete(&self) -> bool { self.seats.len() == SEATS && self.seats.iter().all(|x| x.end.is_some()) }
    fn confirmed(&self) -> bool { self.complete() && self.seats.iter().all(|x| x.confirmed) }
    fn bytes(&self) -> Vec<u8> {
        let mut v = head::<ApaWardenNetworkAccount>(None, None);
        v.extend((self.seats.len() as u32).to_le_bytes());
        v.extend([0; 33]);
        let e = SEATS - self.seats.len();
        for x in &self.seats { v.extend(x.id.to_le_bytes()) }
        v.extend(vec![0; 4 * e]);
        for x in &self.seats { v.extend(&x.start) }
        v.extend(vec![0; HALF * e]);
        for x in &self.seats { put_opt(&mut v, x.end.as_deref(), HALF) }
        v.extend(vec![0; (HALF + 1) * e]);
        for x in &self.seats { v.extend(&x.start[400..432]) }
        v.extend(vec![0; 32 * e]);
        for x in &self.seats { v.push(x.confirmed as u8) }
        v.extend(vec![0; e]);
        v
    }
    fn message(&self) -> [u8; 32] {
        let mut v = vec![];
        for x in &self.seats { v.extend(&x.start); v.extend(x.end.as_ref().unwrap()); }
        solana_program::hash::hash(&v).to_bytes()
    }
}
fn half(s: &mut Src, key: Pubkey) -> Vec<u8> {
    let (a, b) = (s.u8(), s.u8());
    let mut v: Vec<u8> = (0..HALF).map(|i| a.wrapping_add(b.wrapping_mul(i as u8))).collect();
    v[400..432].copy_from_slice(key.as_ref());
    v
}

fn history(s: &mut Src) -> Res {
    let mut w = World::new(&PEOPLE.map(user));
    let n = s.usize(6, 8);
    for j in s.permutation(n) { let c = Config::gen_small(user(PEOPLE[j])); w.enroll(c); }
    let mut apa = Apa::default();
    let mut pool: Vec<Pubkey> = w.exp.keys().copied().chain(PEOPLE.map(user)).collect();
    for i in 0..n as u32 { pool.push(apa_warden_acc(i)); }
    let hurry = s.chance(2, 3);
    let mut steps = s.usize(8, 60);
    let mut done = [0; 3];
    while steps > 0 {
        steps -= 1;
        // the next useful thing, or anything
        let useful = s.chance(if hurry { 7 } else { 3 }, 8);
        let kind = if useful { if apa.confirmed() { s.below(3) } else if apa.complete() { 2 } else if apa.seats.len() < SEATS && s.chance(2, 3) { 0 } else { 1 } } else { s.below(3) };
        let person = s.below(9);
        let mut by = user(PEOPLE[person]);
        match kind {
            0 => {
                let fresh: Vec<Pubkey> = w.wardens.iter().enumerate().filter(|(i, _)| !apa.seats.iter().any(|x| x.id == *i as u32)).map(|x| x.1.config.key).collect();
                if useful && !fresh.is_empty() { by = s.pick(&fresh); }
                let mine = w.wardens.iter().position(|x| x.config.key == by).map(|i| i as u32);
                let id = match mine { Some(i) if s.chance(7, 8) => i, _ => s.below(n + 1) as u32 };
                let key = user(s.pick(&KEYS));
                let q = half(s, key);
                let k = apa_warden_acc(id);
                if s.chance(1, 12) && w.free(&k) { w.prefund(s, k, 10); }
                let should = mine == Some(id) && !apa.complete() && apa.seats.len() < SEATS && w.free(&k) && w.affords(by, &[(k, 10)]);
                let mut i = apa_start(by, id, &q);
                let mut signers = vec![by];
                // (the account decides, not the id)
                let free: &[usize] = if mine == Some(id) { &[] } else { &[2] };
                let spoiled = tamper(s, &mut i, &mut signers, free, &pool);
                let mut next = apa.clone();
                next.seats.push(Seat { id, start: q, end: None, confirmed: false });
                let index = apa.seats.len() as u32;
                if w.attempt(s, &format!("start {id} as {}{}", name(&by), if spoiled { " (tampered)" } else { "" }), &[i], &signers, should && !spoiled, |w| {
                    let mut v = head::<ApaWardenAccount>(None, Some(id));
                    v.extend(id.to_le_bytes());
                    v.extend(index.to_le_bytes());
                    w.create(by, k, v);
                    w.exp.insert(apa_acc(), next.bytes());
                })? { apa = next; done[0] += 1; }
            }
            1 => {
                let open: Vec<u32> = apa.seats.iter().filter(|x| x.end.is_none()).map(|x| x.id).collect();
                if useful && !open.is_empty() { by = w.wardens[s.pick(&open) as usize].config.key; }
                let mine = w.wardens.iter().position(|x| x.config.key == by).map(|i| i as u32);
                let id = match mine { Some(i) if s.chance(7, 8) => i, _ => s.below(n + 1) as u32 };
                let q = half(s, user("end"));
                let seat = apa.seats.iter().position(|x| x.id == id);
                let should = mine == Some(id) && !apa.complete() && seat.is_some();
                let mut i = apa_complete(by, id, &q);
                let mut signers = vec![by];
                let spoiled = tamper(s, &mut i, &mut signers, &[], &pool);
                let mut next = apa.clone();
                if should { let x = &mut next.seats[seat.unwrap()]; if x.end.is_some() { s.label("second half replaced"); } x.end = Some(q); }
                let b = if should { next.bytes() } else { vec![] };
                if w.attempt(s, &format!("complete {id} as {}{}", name(&by), if spoiled { " (tampered)" } else { "" }), &[i], &signers, should && !spoiled, |w| { w.exp.insert(apa_acc(), b); })? { apa = next; done[1] += 1; }
            }
            _ => {
                let mut seat = s.below(SEATS);
                let open: Vec<usize> = (0..apa.seats.len()).filter(|i| !apa.seats[*i].confirmed).collect();
                if useful && !open.is_empty() { seat = s.pick(&open); }
                let id = match apa.seats.get(seat) { Some(x) if s.chance(7, 8) => x.id, _ => s.below(n + 1) as u32 };
                let seat = apa.seats.iter().position(|x| x.id == id);
                let key = match seat { Some(x) if s.chance(7, 8) => Pubkey::new(&apa.seats[x].start[400..432]), _ => if s.bool() { by } else { user(s.pick(&KEYS)) } };
                let mut msg = if apa.complete() { apa.message() } else { s.bytes() };
                let mut right = apa.complete();
                if s.chance(1, 10) { let x = s.below(32); msg[x] ^= 1 << s.below(8); right = false; }
                let should = right && !apa.confirmed() && seat.map(|x| !apa.seats[x].confirmed && apa.seats[x].start[400..432] == key.to_bytes()).unwrap_or(false);
                let mut i = apa_confirm(key, id, msg);
                let mut signers = vec![key];
                let spoiled = tamper(s, &mut i, &mut signers, &[], &pool);
                let mut next = apa.clone();
                if should { next.seats[seat.unwrap()].confirmed = true; }
                let b = next.bytes();
                if w.attempt(s, &format!("confirm {id}{}", if spoiled { " (tampered)" } else { "" }), &[i], &signers, should && !spoiled, |w| { w.exp.insert(apa_acc(), b); })? { apa = next; done[2] += 1; }
            }
        }
        // the phases
        let mut d = w.svm.data(&apa_acc()).to_vec();
        let a = <ApaWardenNetworkAccount as elusiv_types::accounts::ProgramAccount>::new(&mut d).unwrap();
        check!(a.is_application_phase() == !apa.complete() && a.is_confirmation_phase() == (apa.complete() && !apa.confirmed()) && a.is_confirmed() == apa.confirmed(), "phase", "wrong phase reported");
    }
    if apa.confirmed() { s.label("network confirmed"); }
    if apa.complete() { s.label("network complete"); s.nontrivial(s.choices_hash()); }
    Ok(())
}
fn name(k: &Pubkey) -> &'static str { PEOPLE.iter().find(|n| user(n) == *k).copied().unwrap_or("?") }

fn main() {
    Suite::new("P26", "a history of applications, completions and confirmations by nine people, of whom six to eight are wardens, with wrong ids, keys, messages, phases and accounts, in which all six seats were completed")
        .test("genesis", 20_000, 200_000, history)
        .main()
}
