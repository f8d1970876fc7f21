//! Property P17: a verifying key changes only through its authority and never after it was frozen; the version in use is replaced as a
//! whole by a completely uploaded one, whose bytes are exactly the uploaded packets, and its lamports go to the replacing signer.
use elusiv::instruction::ElusivInstruction;
use elusiv::processor::VKeyAccountDataPacket;
use elusiv::proof::vkey::VerifyingKey;
use elusiv::state::vkey::VKeyAccount;
use elusiv_types::accounts::*;
use harness::prelude::*;
use harness::send::{balances, difference, Deltas};
use harness::world::*;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;
use std::sync::OnceLock;

const PEOPLE: [&str; 3] = ["alice", "bob", "carol"];
const PACKET: usize = 964;
const PROGRAM_FILES: usize = 4;

fn template() -> &'static World {
    static T: OnceLock<World> = OnceLock::new();
    T.get_or_init(|| {
        let mut w = World::bare(fee([5000, 0, 0, 0, 0, 0, 0]));
        for p in PEOPLE { w.fund(&user(p), 100_000 * SOL, 0); }
        w
    })
}

#[derive(Clone, PartialEq, Debug)]
struct Key { authority: Option<Pubkey>, frozen: bool, version: u32, inputs: u32, active: Option<usize>, next: Option<usize> }

struct Sim { w: World, key: Option<Key>, files: Vec<Option<(Vec<u8>, bool)>>, replaced: usize }

fn file(i: usize) -> Pubkey { user(&format!("vkey-file/{i}")) }
fn vk(id: u32) -> Pubkey { pda_at::<VKeyAccount>(id).0 }

impl Sim {
    fn actual(&mut self) -> Option<Key> {
        if !self.w.svm.exists(&vk(0)) { return None }
        let idx = |k: Option<Pubkey>| k.map(|k| (0..PROGRAM_FILES + 3).find(|&i| file(i) == k).unwrap_or(99));
        Some(with_acc!(self.w, vk(0), VKeyAccount, |a| Key {
            authority: a.get_authority().option(), frozen: a.get_is_frozen(), version: a.get_version(), inputs: a.get_public_inputs_count(),
            active: idx(a.get_child_pubkey(0)), next: idx(a.get_child_pubkey(1)),
        }))
    }
    /// the signer is allowed to change the key
    fn may(&self, who: &Pubkey) -> bool { self.key.as_ref().map(|k| !k.frozen && k.authority.map(|a| a == *who).unwrap_or(true)).unwrap_or(false) }

    fn invariant(&mut self, what: &str) -> Res {
        let a = self.actual();
        check!(a == self.key, "state", "{what}: the verifying key is {a:?}, expected {:?}", self.key);
        for i in 0..self.files.len() {
            match &self.files[i] {
                Some((d, used)) => {
                    check!(self.w.svm.exists(&file(i)), "file", "{what}: data account {i} disappeared");
                    let now = self.w.svm.data(&file(i));
                    check!(now[0] == *used as u8, "in-use", "{what}: data account {i} in use: {} instead of {used}", now[0]);
                    check!(now[1..] == d[..], "data", "{what}: the data of account {i} changed at byte {:?}", now[1..].iter().zip(d).position(|(a, b)| a != b));
                }
                None => check!(!self.w.svm.exists(&file(i)), "file", "{what}: the replaced data account {i} remains"),
            }
        }
        check!((1..4).all(|i| !self.w.svm.exists(&vk(i))), "unknown-key", "{what}: an unsupported verifying key exists");
        Ok(())
    }
    fn exec(&mut self, s: &mut Src, what: &str, ixs: &[Instruction], signers: &[Pubkey], want: &Deltas) -> Result<bool, Fail> {
        let before = balances(&self.w);
        let r = self.w.svm.tx(ixs, signers);
        s.log(|| format!("{what} -> {}", match &r { Ok(()) => "ok".into(), Err(e) => format!("{e:?}") }));
        let none = Deltas::default();
        if let Some(d) = difference(&before, &balances(&self.w), if r.is_ok() { want } else { &none }, |k| k.to_string()) { fail("funds", format!("{what}: {d}"))?; }
        Ok(r.is_ok())
    }
}

/// drops the signature of `who` from the instruction with a certain probability
fn sign(s: &mut Src, i: &mut Instruction, who: Pubkey) -> (bool, Vec<Pubkey>) {
    if s.chance(1, 10) {
        for a in i.accounts.iter_mut() { if a.pubkey == who { a.is_signer = false; } }
        let o = user("stranger");
        return (false, vec![o]);
    }
    (true, vec![who])
}

/// mostly somebody permitted
fn actor(s: &mut Src, m: &Sim) -> Pubkey {
    match m.key.as_ref().and_then(|k| k.authority) { Some(a) if !s.chance(1, 5) => a, _ => user(s.pick(&PEOPLE)) }
}

fn create(s: &mut Src, m: &mut Sim) -> Res {
    let who = actor(s, m);
    let id = s.pick(&[0u32, 0, 0, 1, 2, 256]);
    let inputs = s.below(2) as u32;
    let authority = match s.below(3) { 0 => None, _ => Some(user(s.pick(&PEOPLE))) };
    let at = if s.chance(1, 8) { 0 } else { id };
    let mut i = ix(ElusivInstruction::CreateVkeyAccount { vkey_id: id, public_inputs_count: inputs, deploy_authority: authority.into() }, vec![ws(who), w(vk(at)), r(system_program::ID)]);
    let (signed, signers) = sign(s, &mut i, who);
    let mut d = Deltas::default();
    d.mv(who, vk(id), 0, rent_exempt(VKeyAccount::SIZE));
    let ok = m.exec(s, &format!("create {id} ({inputs} inputs, authority {authority:?})"), &[i], &signers, &d)?;
    let should = signed && id == 0 && m.key.is_none();
    check!(ok == should, "create", "creation of key {id} (signed: {signed}, exists: {}) -> {ok}", m.key.is_some());
    if ok { m.key = Some(Key { authority, frozen: false, version: 0, inputs, active: None, next: None }); }
    // (as if it had been updated many times before)
    if ok && s.chance(1, 4) {
        let v = s.pick(&[254u32, 255, 65534, u32::MAX - 1, u32::MAX]);
        with_acc!(m.w, vk(0), VKeyAccount, |a| a.set_version(&v));
        m.key.as_mut().unwrap().version = v;
    }
    Ok(())
}

/// a data account of some size, owner and lamports
fn put_file(s: &mut Src, m: &mut Sim, i: usize) {
    let n = m.key.as_ref().map(|k| k.inputs).unwrap_or(0) as usize;
    let size = (VerifyingKey::source_size(n) + 1).wrapping_add(s.pick(&[0usize, 0, 0, 0, 1, usize::MAX]));
    let mut d = vec![0u8; size];
    if s.bool() { for k in 0..20 { d[1 + k * 37] = 7; } }
    let mut used = false;
    if s.chance(1, 8) { d[0] = 1; used = true; }
    let owner = if s.chance(1, 8) { user("program") } else { elusiv::id() };
    m.files[i] = Some((d[1..].to_vec(), used));
    m.w.svm.put_exempt(file(i), owner, d.clone());
    if s.chance(1, 10) { m.w.svm.accounts.get_mut(&file(i)).unwrap().lamports -= 1; }
}

fn new_version(s: &mut Src, m: &mut Sim) -> Res {
    let who = actor(s, m);
    let f = s.below(PROGRAM_FILES);
    if m.files[f].is_none() { put_file(s, m, f); }
    let mut i = ix(ElusivInstruction::CreateNewVkeyVersion { vkey_id: 0 }, vec![rs(who), w(vk(0)), w(file(f))]);
    let (signed, signers) = sign(s, &mut i, who);
    let size = m.w.svm.data(&file(f)).len();
    let fit = size == m.key.as_ref().map(|k| VerifyingKey::source_size(k.inputs as usize) + 1).unwrap_or(0);
    let (owned, exempt, used) = (m.w.svm.owner(&file(f)) == elusiv::id(), m.w.svm.lamports(&file(f)) >= rent_exempt(size), m.files[f].as_ref().unwrap().1);
    let ok = m.exec(s, &format!("new version in {f} by {who}"), &[i], &signers, &Deltas::default())?;
    let should = signed && m.may(&who) && m.key.as_ref().unwrap().next.is_none() && fit && owned && exempt && !used;
    check!(ok == should, "new-version", "data account {f} as new version (signed: {signed}, permitted: {}, size: {fit}, owned: {owned}, rent exempt: {exempt}, in use: {used}, key {:?}) -> {ok}", m.may(&who), m.key);
    if ok { m.key.as_mut().unwrap().next = Some(f); m.files[f].as_mut().unwrap().1 = true; }
    Ok(())
}

fn set_data(s: &mut Src, m: &mut Sim) -> Res {
    let who = actor(s, m);
    let n = VerifyingKey::source_size(m.key.as_ref().map(|k| k.inputs).unwrap_or(0) as usize);
    let packets = (n + PACKET - 1) / PACKET;
    let p = match s.below(5) { 0 => packets - 1, 1 => 0, 2 => packets, 3 => s.pick(&[u32::MAX as usize, packets + 1, packets * 2]), _ => s.below(packets) };
    let need = if p * PACKET >= n { PACKET } else { PACKET.min(n - p * PACKET) };
    let len = match s.below(6) { 0 => need.saturating_sub(1), 1 => 0, 2 => PACKET, _ => need };
    let data: Vec<u8> = { let x = s.u8(); (0..len).map(|i| x.wrapping_add((i * 7) as u8)).collect() };
    let mut acc = vec![rs(who), w(vk(0))];
    let children: Vec<usize> = match s.below(4) {
        0 => m.key.iter().flat_map(|k| [k.active, k.next]).flatten().collect(),
        1 => m.key.iter().filter_map(|k| k.active).collect(),
        2 => m.key.iter().filter_map(|k| k.next).collect(),
        _ => m.key.iter().flat_map(|k| [k.active, k.next]).flatten().collect(),
    };
    acc.extend(children.iter().map(|c| w(file(*c))));
    // (not the right account)
    let foreign = s.chance(1, 12) && acc.len() > 2;
    if foreign { let at = acc.len() - 1; let f = s.below(PROGRAM_FILES); if m.files[f].is_none() || m.key.iter().any(|k| k.active == Some(f) || k.next == Some(f)) || acc[2..].iter().any(|a| a.pubkey == file(f)) { return Ok(()) } acc[at] = w(file(f)); }
    let mut i = ix(ElusivInstruction::SetVkeyData { vkey_id: 0, data_position: p as u32, packet: VKeyAccountDataPacket(data.clone()) }, acc);
    let (signed, signers) = sign(s, &mut i, who);
    let what = format!("{len} bytes at packet {p} of {packets} by {who}, children {children:?}");
    let ok = m.exec(s, &what, &[i], &signers, &Deltas::default())?;
    let next = m.key.as_ref().and_then(|k| k.next);
    let possible = signed && m.may(&who) && p * PACKET < n && len >= need && !foreign;
    let passed = next.map(|x| children.contains(&x)).unwrap_or(false);
    check!(!ok || possible && passed, "set-data", "{what} (signed: {signed}, permitted: {}, needed {need}, foreign: {foreign}, key {:?}) succeeds", m.may(&who), m.key);
    check!(ok || !(possible && passed), "refused", "{what} is refused, key {:?}", m.key);
    if ok { m.files[next.unwrap()].as_mut().unwrap().0[p * PACKET..p * PACKET + need].copy_from_slice(&data[..need]); s.label("data written"); }
    Ok(())
}

fn update(s: &mut Src, m: &mut Sim) -> Res {
    let who = actor(s, m);
    let old = m.key.as_ref().and_then(|k| k.active);
    let f = if s.chance(1, 5) { s.below(PROGRAM_FILES) } else { old.unwrap_or(0) };
    if m.files[f].is_none() && old.is_none() && s.bool() { put_file(s, m, f); }
    let mut i = ix(ElusivInstruction::UpdateVkeyVersion { vkey_id: 0 }, vec![ws(who), w(vk(0)), w(file(f)), r(system_program::ID)]);
    let (signed, signers) = sign(s, &mut i, who);
    let mut d = Deltas::default();
    if let Some(o) = old { d.mv(file(o), who, 0, m.w.svm.lamports(&file(o))); }
    let what = format!("update by {who}, old data account {f}");
    let ok = m.exec(s, &what, &[i], &signers, &d)?;
    let should = signed && m.may(&who) && m.key.as_ref().unwrap().next.is_some() && m.key.as_ref().unwrap().version < u32::MAX && old.map(|o| o == f).unwrap_or(true);
    check!(ok == should, "update", "{what} (signed: {signed}, permitted: {}, key {:?}) -> {ok}", m.may(&who), m.key);
    if ok {
        let k = m.key.as_mut().unwrap();
        if let Some(o) = k.active { m.files[o] = None; m.replaced += 1; s.label("version replaced"); }
        k.active = k.next.take();
        k.version += 1;
    }
    Ok(())
}

fn freeze(s: &mut Src, m: &mut Sim) -> Res {
    let who = actor(s, m);
    let mut i = ix(ElusivInstruction::FreezeVkey { vkey_id: 0 }, vec![rs(who), w(vk(0))]);
    let (signed, signers) = sign(s, &mut i, who);
    let ok = m.exec(s, &format!("freeze by {who}"), &[i], &signers, &Deltas::default())?;
    check!(ok == (signed && m.may(&who)), "freeze", "freeze by {who} (signed: {signed}, key {:?}) -> {ok}", m.key);
    if ok { m.key.as_mut().unwrap().frozen = true; s.label("frozen"); }
    Ok(())
}

fn authority(s: &mut Src, m: &mut Sim) -> Res {
    let (who, new) = (actor(s, m), user(s.pick(&PEOPLE)));
    let mut i = ix(ElusivInstruction::ChangeVkeyAuthority { vkey_id: 0, authority: new }, vec![rs(who), w(vk(0))]);
    let (signed, signers) = sign(s, &mut i, who);
    let ok = m.exec(s, &format!("authority {new} by {who}"), &[i], &signers, &Deltas::default())?;
    check!(ok == (signed && m.may(&who)), "authority", "change of the authority by {who} (signed: {signed}, key {:?}) -> {ok}", m.key);
    if ok { m.key.as_mut().unwrap().authority = Some(new); }
    Ok(())
}

fn history(s: &mut Src) -> Res {
    let mut m = Sim { w: template().clone(), key: None, files: vec![None; PROGRAM_FILES], replaced: 0 };
    let mut changes = 0;
    for _ in 0..s.usize(4, 48) {
        let before = m.key.clone();
        match s.weighted(&[if m.key.is_none() { 6 } else { 1 }, 6, 5, 6, 1, 2]) {
            0 => create(s, &mut m)?,
            1 => new_version(s, &mut m)?,
            2 => set_data(s, &mut m)?,
            3 => update(s, &mut m)?,
            4 => if s.chance(1, 3) { freeze(s, &mut m)? },
            _ => authority(s, &mut m)?,
        }
        if before != m.key { changes += 1; }
        m.invariant("afterwards")?;
    }
    if changes >= 4 { let h = s.choices_hash(); s.nontrivial(h); }
    Ok(())
}

fn main() {
    Suite::new("P17", "histories with at least four changes of the verifying key account")
        .assume("keys with no or one public input (the data account of the real one has 7 MB)")
        .test("lifecycle", 10000, 300_000, history)
        .main()
}
