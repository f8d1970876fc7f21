//! Property P16: a child account is attached only to a free slot and only if it is a rent-exempt account of the program with the exact
//! size that is not used anywhere else; a slot is never assigned again, and an attached nullifier map starts empty.
use elusiv::instruction::ElusivInstruction;
use elusiv::map::ElusivMap;
use elusiv::state::metadata::MetadataAccount;
use elusiv::state::nullifier::NullifierAccount;
use elusiv::state::storage::StorageAccount;
use elusiv::types::U256;
use elusiv_types::accounts::*;
use harness::prelude::*;
use harness::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::sync::{Arc, OnceLock};

const TREES: u32 = 3;

fn template() -> &'static World {
    static T: OnceLock<World> = OnceLock::new();
    T.get_or_init(|| {
        let mut w = World::bare(fee([5000, 0, 0, 0, 0, 0, 0]));
        let payer = w.payer;
        for t in 2..TREES { w.svm.tx(&[open_nullifier(payer, t)], &[payer]).unwrap(); }
        w
    })
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Parent { Storage, Nullifier(u32), Metadata }

impl Parent {
    fn key(self) -> Pubkey { match self { Parent::Storage => pda::<StorageAccount>(), Parent::Nullifier(t) => pda_at::<NullifierAccount>(t).0, Parent::Metadata => pda::<MetadataAccount>() } }
    fn count(self) -> u32 { match self { Parent::Storage => 25, Parent::Nullifier(_) => 16, Parent::Metadata => 16 } }
    /// size of a child account according to the documented number of values
    fn size(self) -> usize {
        1 + match self {
            Parent::Storage => 83_887 * 32,
            Parent::Nullifier(_) => <<NullifierAccount as ParentAccount>::Child as ChildAccount>::INNER_SIZE,
            Parent::Metadata => 65_536 * 17,
        }
    }
    fn slot(self, w: &mut World, i: usize) -> Option<Pubkey> {
        match self {
            Parent::Storage => with_acc!(w, self.key(), StorageAccount, |a| a.get_child_pubkey(i)),
            Parent::Nullifier(_) => with_acc!(w, self.key(), NullifierAccount, |a| a.get_child_pubkey(i)),
            Parent::Metadata => with_acc!(w, self.key(), MetadataAccount, |a| a.get_child_pubkey(i)),
        }
    }
}

fn gen_parent(s: &mut Src) -> Parent { match s.below(4) { 0 => Parent::Storage, 1 => Parent::Metadata, _ => Parent::Nullifier(s.below(TREES as usize) as u32) } }

struct Sim { w: World, slots: BTreeMap<(Parent, u32), Pubkey>, candidates: Vec<Pubkey>, faults: BTreeMap<Pubkey, &'static str> }

fn candidate(s: &mut Src, m: &mut Sim, p: Parent) -> Pubkey {
    if !m.candidates.is_empty() && s.chance(1, 3) { return s.pick(&m.candidates) }
    // an account of the program itself (which stays as it is)
    if s.chance(1, 16) { return gen_parent(s).key() }
    let k = user(&format!("child-candidate/{}", m.candidates.len()));
    m.candidates.push(k);
    let fault = s.below(20).min(11);
    let of = if fault == 0 { gen_parent(s) } else { p };
    let mut d = vec![0u8; of.size()];
    // (the contents do not matter)
    if s.chance(1, 4) { for _ in 0..20 { let i = s.usize(1, d.len() - 1); d[i] = s.u8(); } }
    if s.chance(1, 4) { for b in d[1..40].iter_mut() { *b = s.u8(); } }
    // (parts of a map that was in use, such as everything behind its length)
    if s.chance(1, 3) { let (a, n, x) = (s.usize(1, 12), s.usize(1, 60), s.u8()); for i in a..a + n { d[i] = x.wrapping_add((i % 3) as u8); } }
    match fault { 1 => { d.pop(); } 2 => d.push(0), 3 => d.truncate(s.pick(&[0usize, 1, 2, 100])), 4 => d[0] = 1, _ => {} }
    let owner = match fault { 5 => user("other-program"), 6 => solana_program::system_program::ID, _ => elusiv::id() };
    let l = rent_exempt(d.len()) - match fault { 7 => 1, 8 => s.range(1, rent_exempt(d.len()) - 1), _ => 0 };
    m.faults.insert(k, ["other size", "too small", "too large", "tiny", "in use", "owner", "owner", "rent", "rent", "", "", ""][fault]);
    m.w.svm.put(k, owner, l, d);
    k
}

fn attach(s: &mut Src, m: &mut Sim) -> Res {
    let p = gen_parent(s);
    let i = match s.below(6) { 0 => p.count() - 1, 1 => s.pick(&[p.count(), p.count() + 1, 255, u32::MAX]), 2 => s.below(p.count() as usize) as u32, _ => s.below(3) as u32 };
    let k = candidate(s, m, p);
    // the parent account that is passed, and the one that is addressed
    let at = if s.chance(1, 12) { gen_parent(s) } else { p };
    let writable = !s.chance(1, 12);
    let data = match p {
        Parent::Storage => ElusivInstruction::EnableStorageChildAccount { child_index: i },
        Parent::Nullifier(t) => ElusivInstruction::EnableNullifierChildAccount { mt_index: t, child_index: i },
        Parent::Metadata => ElusivInstruction::EnableMetadataChildAccount { child_index: i },
    };
    let mut accounts = vec![w(at.key()), if writable { w(k) } else { r(k) }];
    if s.chance(1, 20) { accounts.swap(0, 1); }
    let swapped = accounts[0].pubkey != at.key();
    let before = m.w.svm.accounts.clone();
    let a = m.w.svm.get(&k);
    let free = i < p.count() && !m.slots.contains_key(&(p, i));
    let fits = a.owner == elusiv::id() && a.data.len() == p.size() && a.lamports >= rent_exempt(p.size());
    let unused = a.data.first() == Some(&0);
    let ok = m.w.svm.tx(&[ix(data, accounts)], &[]).is_ok();
    let fault = m.faults.get(&k).copied().unwrap_or("program account");
    let what = format!("{p:?} slot {i} <- candidate {:?} (fault: {fault})", m.candidates.iter().position(|c| *c == k));
    s.log(|| format!("{what} -> {ok}"));
    let should = free && fits && unused && at == p && writable && !swapped;
    check!(ok == should, if ok { "attached" } else { "refused" }, "{what}: success = {ok} (slot free: {free}, valid account: {fits}, unused: {unused}, right parent: {}, writable: {writable})", at == p && !swapped);
    if ok {
        m.slots.insert((p, i), k);
        s.label(match p { Parent::Storage => "storage", Parent::Nullifier(_) => "nullifier", Parent::Metadata => "metadata" });
    }
    // nothing else changed
    for (key, b) in &before {
        let n = m.w.svm.get(key);
        check!(n.lamports == b.lamports && n.owner == b.owner, "other", "{what}: lamports or owner of an account changed");
        if Arc::ptr_eq(&n.data, &b.data) || n.data == b.data { continue }
        check!(ok && (*key == p.key() || *key == k), "other", "{what}: the data of another account changed");
        if *key == k {
            check!(n.data[0] == 1, "in-use", "{what}: the account is not marked as used");
        }
    }
    if ok {
        if let Parent::Nullifier(_) = p {
            let mut d = m.w.svm.data(&k)[1..].to_vec();
            let keys: Vec<U256> = (0..4).map(|_| s.bytes::<32>()).collect();
            let (empty, before, after) = guard(|| {
                let mut map = ElusivMap::<U256, (), 65536>::new(&mut d);
                let empty = map.is_empty();
                let before = keys.iter().any(|k| map.contains(k).is_some());
                for k in &keys { let _ = map.try_insert(*k, &()); }
                (empty, before, keys.iter().all(|k| map.contains(k).is_some()) && keys.contains(&map.min()) && keys.contains(&map.max()))
            }).map_err(|e| Fail::Violation { sig: "map".into(), msg: e })?;
            check!(empty && !before && after, "map", "{what}: the nullifier map does not start empty (empty: {empty}, other keys found: {before}, inserted keys found: {after})");
        }
    }
    Ok(())
}

fn history(s: &mut Src) -> Res {
    let mut m = Sim { w: template().clone(), slots: BTreeMap::new(), candidates: vec![], faults: BTreeMap::new() };
    for _ in 0..s.usize(2, 14) {
        attach(s, &mut m)?;
        // the account is used afterwards
        if !m.slots.is_empty() && s.chance(1, 4) {
            let k = *m.slots.values().nth(s.below(m.slots.len())).unwrap();
            let d = m.w.svm.data_mut(&k);
            for i in 1..60 { d[i] = (i * 31) as u8; }
        }
        for p in [Parent::Storage, Parent::Metadata, Parent::Nullifier(0), Parent::Nullifier(1), Parent::Nullifier(2)] {
            for i in 0..p.count() {
                let got = p.slot(&mut m.w, i as usize);
                check!(got == m.slots.get(&(p, i)).copied(), "slot", "slot {i} of {p:?} holds {got:?}, expected {:?}", m.slots.get(&(p, i)));
            }
        }
        let mut all: Vec<_> = m.slots.values().collect();
        all.sort();
        all.dedup();
        check!(all.len() == m.slots.len(), "shared", "a child account is used twice");
    }
    if m.slots.len() >= 2 { let h = s.choices_hash(); s.nontrivial(h); }
    Ok(())
}

fn main() {
    Suite::new("P16", "histories in which at least two child accounts were attached")
        .test("attach", 6000, 60_000, history)
        .main()
}
