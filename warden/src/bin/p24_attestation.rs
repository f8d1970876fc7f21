//! Property P24: attestation of the metadata of wardens.
use warden::*;

const PEOPLE: [&str; 6] = ["anna", "bert", "carl", "dora", "emil", "fred"];
fn people() -> Vec<Pubkey> { PEOPLE.iter().map(|n| user(n)).collect() }

fn history(s: &mut Src) -> Res {
    let mut w = World::new(&people());
    let n = s.usize(1, 5);
    // (an unrelated member first: the index of a member is not its id in general)
    for j in 0..n {
        let c = Config::gen(s, user(PEOPLE[j]), None);
        w.enroll(c);
    }
    // the attester authority appointed some of them
    for j in 0..n { if s.chance(1, 2) { w.wardens[j].config.attestation = true; w.set_warden(j as u32); w.force(warden_acc(j as u32)); } }
    if n > 1 && s.chance(1, 3) {
        // places in another order
        let p = s.permutation(n);
        w.net = p.iter().map(|i| w.net[*i].clone()).collect();
        w.set_net();
        w.force(network_acc());
        s.label("other order");
    }
    let mut pool = people();
    pool.extend(w.exp.keys());
    pool.push(warden_acc(w.next));
    for _ in 0..s.usize(1, 12) {
        w.elapse(s);
        match s.below(8) {
            0 => {
                let by = user(s.pick(&PEOPLE));
                let id = s.below(n + 1) as u32;
                let k = user(s.pick(&PEOPLE));
                w.attempt(s, "add", &[add_attester(by, id, k)], &[by], false, |_| {})?;
            }
            1 => {
                let by = user(s.pick(&PEOPLE));
                let id = s.below(n + 1) as u32;
                let k = user(s.pick(&PEOPLE));
                // an attester account from earlier
                if s.bool() { if w.free(&attester_acc(k)) { let mut d = head::<BasicWardenAttesterMapAccount>(Some(k), None); d.extend(id.to_le_bytes()); w.exp.insert(attester_acc(k), d); w.force(attester_acc(k)); } }
                w.attempt(s, "revoke", &[revoke_attester(by, id, k)], &[by], false, |_| {})?;
            }
            2 => {
                // nobody appoints himself
                let by = user(PEOPLE[5]);
                let mut c = Config::gen(s, by, None);
                c.attestation = true;
                let id = w.next;
                w.attempt(s, "self-appointed", &[register(by, id, &c)], &[by], false, |_| {})?;
            }
            _ => {
                let (a, id) = (s.below(n + 1) as u32, s.below(n + 1) as u32);
                let by = if (a as usize) < n && s.chance(4, 5) { w.wardens[a as usize].config.key } else { user(s.pick(&PEOPLE)) };
                let right = w.net.iter().position(|m| m.id == id);
                let index = match right { Some(i) if s.chance(4, 5) => i, _ => s.pick(&[0, 1, n - 1, n, n + 1, capacity() - 1, capacity(), u32::MAX as usize]) };
                let mut md = Metadata { asn: if s.bool() { Some(s.u64() as u32) } else { None }, tz_area: s.below(11) as u8, tz_loc: Text::gen(s), region: s.below(7) as u8, proxy: s.bool() };
                if (id as usize) < n {
                    // mostly what the warden claims
                    let c = w.wardens[id as usize].config.clone();
                    if s.chance(3, 4) { md.tz_area = c.tz_area; }
                    if s.chance(3, 4) { md.tz_loc = c.tz_loc; }
                    if s.chance(3, 4) { md.region = c.region; }
                    if s.chance(3, 4) { md.proxy = c.proxy; }
                }
                let should = (a as usize) < n && (id as usize) < n && a != id && w.wardens[a as usize].config.key == by && w.wardens[a as usize].config.attestation && index < n && w.net[index].id == id;
                let mut i = attest(by, a, id, index as u32, &md);
                let mut signers = vec![by];
                let spoiled = tamper(s, &mut i, &mut signers, &[], &pool);
                if w.attempt(s, &format!("attest {id} by {a} at {index}{}", if spoiled { " (tampered)" } else { "" }), &[i], &signers, should && !spoiled, |w| {
                    let x = &mut w.wardens[id as usize];
                    let same = x.config.tz_area == md.tz_area && x.config.tz_loc == md.tz_loc && x.config.region == md.region && x.config.proxy == md.proxy;
                    x.meta_valid = Some(same);
                    x.asn = md.asn;
                    x.config.tz_area = md.tz_area;
                    x.config.tz_loc = md.tz_loc.clone();
                    x.config.region = md.region;
                    x.config.proxy = md.proxy;
                    w.set_warden(id);
                    w.net[index].region = md.region;
                    w.set_net();
                })? {
                    s.label(format!("valid: {:?}", w.wardens[id as usize].meta_valid));
                    s.nontrivial(s.choices_hash());
                }
            }
        }
    }
    Ok(())
}

fn main() {
    Suite::new("P24", "a history of attestations of up to five wardens, and of attempts to appoint or dismiss attesters, with wrong attesters, wardens, places and accounts, in which at least one attestation was accepted")
        .assume("attesters are appointed by METADATA_ATTESTER_AUTHORITY, which is the zero key and thus cannot sign: the harness sets their flag directly")
        .test("attestation", 50_000, 400_000, history)
        .main()
}
