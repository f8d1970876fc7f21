//! Property P02: ElusivMap / ElusivSet behave like a capacity-bounded sorted map.
use elusiv::map::{ElusivMap, ElusivMapError, ElusivMapValue, ElusivSet};
use elusiv::types::OrdU256;
use elusiv_types::bytes::BorshSerDeSized;
use harness::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

/// result of an insertion, in observable terms
#[derive(Debug, PartialEq, Clone)]
enum Ins<K, V> { Inserted, Evicted(K, V), Dup(Option<V>), TooLarge, NotFound }

fn obs<K, V: ElusivMapValue>(r: Result<Option<(K, V)>, ElusivMapError<V>>) -> Ins<K, V> {
    match r {
        Ok(None) => Ins::Inserted,
        Ok(Some((k, v))) => Ins::Evicted(k, v),
        Err(ElusivMapError::Duplicate(v)) => Ins::Dup(Some(v)),
        Err(ElusivMapError::KeyTooLarge) => Ins::TooLarge,
        Err(ElusivMapError::KeyNotFound) => Ins::NotFound,
    }
}

fn model_insert<K: Ord + Clone, V: Clone>(m: &mut BTreeMap<K, V>, cap: usize, k: K, v: V) -> Ins<K, V> {
    if let Some(old) = m.get(&k) { return Ins::Dup(Some(old.clone())); }
    m.insert(k, v);
    if m.len() > cap {
        let (k, v) = m.pop_last().unwrap();
        return Ins::Evicted(k, v);
    }
    Ins::Inserted
}

/// generates keys from patterns which stress the mid-pointer tree
struct Keys { mode: usize, i: u32, span: u32 }
impl Keys {
    fn new(s: &mut Src, cap: usize) -> Self {
        let mode = s.below(6);
        Keys { mode, i: 0, span: [cap as u32 / 2 + 2, cap as u32 * 2 + 3, cap as u32 * 8 + 8, u32::MAX / 2][s.below(4)] }
    }
    fn next(&mut self, s: &mut Src) -> u32 {
        self.i += 1;
        match self.mode {
            0 => s.range(0, self.span as u64) as u32,
            1 => self.i,                                   // ascending
            2 => u32::MAX - self.i,                        // descending
            3 => if self.i % 2 == 0 { self.i } else { u32::MAX - self.i }, // zig-zag to the middle
            4 => if self.i % 2 == 0 { (1 << 30) + self.i } else { (1 << 30) - self.i }, // outwards
            _ => if s.chance(1, 3) { s.range(0, 8) as u32 } else { s.range(0, self.span as u64) as u32 },
        }
    }
}

fn run_map<const CAP: usize>(s: &mut Src, n_ops: usize) -> Res {
    let mut data = vec![0u8; <ElusivMap<'static, u32, elusiv_val::V, CAP>>::SIZE];
    let mut model: BTreeMap<u32, u64> = BTreeMap::new();
    let mut keys = Keys::new(s, CAP);
    let mut seen: Vec<u32> = vec![];
    let (mut dups, mut evicts) = (0, 0);
    for op in 0..n_ops {
        let k = if !seen.is_empty() && s.chance(1, 5) { s.pick(&seen) } else if !seen.is_empty() && s.chance(1, 6) { s.pick(&seen).wrapping_add(1) } else { keys.next(s) };
        let kind = s.weighted(&[6, 2, 1]);
        let v = op as u64 * 7 + 1;
        match kind {
            0 => {
                let got = { let mut m = ElusivMap::<u32, elusiv_val::V, CAP>::new(&mut data); obs(m.try_insert(k, &elusiv_val::V(v))) };
                let want = model_insert(&mut model, CAP, k, v);
                let got = match got { Ins::Inserted => Ins::Inserted, Ins::Evicted(k, v) => Ins::Evicted(k, v.0), Ins::Dup(v) => Ins::Dup(v.map(|v| v.0)), Ins::TooLarge => Ins::TooLarge, Ins::NotFound => Ins::NotFound };
                s.log(|| format!("try_insert({k}, {v}) -> {got:?}"));
                if let (Ins::Dup(Some(g)), Ins::Dup(Some(w))) = (&got, &want) { dups += 1; check!(g == w, "dup-value", "op {op}: duplicate insertion of key {k} reports value {g}, stored value is {w}"); }
                if let Ins::Evicted(..) = want { evicts += 1; }
                check!(got == want, "insert", "op {op}: try_insert({k}) returned {got:?}, sorted-map model says {want:?} (capacity {CAP}, len {})", model.len());
                seen.push(k);
            }
            1 => {
                let got = { let mut m = ElusivMap::<u32, elusiv_val::V, CAP>::new(&mut data); m.contains(&k).map(|v| v.0) };
                let want = model.get(&k).copied();
                s.log(|| format!("contains({k}) -> {got:?}"));
                check!(got.is_some() == want.is_some(), "contains", "op {op}: contains({k}) = {got:?}, model {want:?}");
                check!(got == want, "contains-value", "op {op}: contains({k}) returns value {got:?}, stored value is {want:?}");
            }
            _ => {
                let mut m = ElusivMap::<u32, elusiv_val::V, CAP>::new(&mut data);
                check_eq!(m.is_empty(), model.is_empty(), "is_empty", "op {op}: is_empty");
                check_eq!(m.is_full(), model.len() == CAP, "is_full", "op {op}: is_full");
                if !model.is_empty() {
                    check_eq!(m.min(), *model.first_key_value().unwrap().0, "min", "op {op}: min");
                    check_eq!(m.max(), *model.last_key_value().unwrap().0, "max", "op {op}: max");
                }
            }
        }
    }
    // final sweep: membership of every key ever used and its neighbours
    let mut probe: BTreeSet<u32> = seen.iter().copied().collect();
    for k in &seen { probe.insert(k.wrapping_add(1)); probe.insert(k.wrapping_sub(1)); }
    let mut m = ElusivMap::<u32, elusiv_val::V, CAP>::new(&mut data);
    for k in probe {
        let got = m.contains(&k).map(|v| v.0);
        check!(got == model.get(&k).copied(), if got.is_some() == model.contains_key(&k) { "contains-value" } else { "contains" }, "final sweep: contains({k}) = {got:?}, model {:?}", model.get(&k));
    }
    s.label(format!("capacity={CAP}"));
    if evicts > 0 { s.label("with-eviction"); }
    if dups > 0 { s.label("with-duplicate"); }
    if model.len() >= 2.min(CAP) && (evicts > 0 || dups > 0) { let h = s.choices_hash(); s.nontrivial(h); }
    Ok(())
}

mod elusiv_val {
    use borsh::{BorshDeserialize, BorshSerialize};
    use elusiv_types::bytes::BorshSerDeSized;
    #[derive(Clone, Copy, Debug, PartialEq, BorshDeserialize, BorshSerialize)]
    pub struct V(pub u64);
    impl BorshSerDeSized for V { const SIZE: usize = 8; }
    impl elusiv::map::ElusivMapValue for V {}
}

fn ord(v: u64, w: u64) -> OrdU256 {
    let mut b = [0u8; 32];
    b[24..].copy_from_slice(&v.to_le_bytes());
    b[..8].copy_from_slice(&w.to_le_bytes());
    OrdU256(b)
}
fn big(b: &[u8; 32]) -> [u8; 32] { let mut b = *b; b.reverse(); b }

/// U256 set with arbitrary 32-byte keys (the nullifier map's key type), ordering taken as little-endian integers
fn run_set<const CAP: usize>(s: &mut Src, n_ops: usize) -> Res {
    let mut data = vec![0u8; <ElusivSet<'static, OrdU256, CAP>>::SIZE];
    let mut model: BTreeSet<[u8; 32]> = BTreeSet::new();
    let mut seen: Vec<[u8; 32]> = vec![];
    let mut hits = 0;
    for op in 0..n_ops {
        let k: [u8; 32] = match s.below(5) {
            0 => s.bytes::<32>(),
            1 => ord(s.range(0, 20), s.range(0, 3)).0,
            2 if !seen.is_empty() => { let mut k = s.pick(&seen); let i = s.below(32); k[i] ^= 1 << s.below(8); k }
            3 if !seen.is_empty() => s.pick(&seen),
            _ => { let mut k = [0u8; 32]; k[s.below(32)] = s.u8(); k }
        };
        let mut m = ElusivSet::<OrdU256, CAP>::new(&mut data);
        let has = m.contains(&OrdU256(k)).is_some();
        check!(has == model.contains(&big(&k)), "contains", "op {op}: contains({}) = {has}, model {}", hex(&k), !has);
        if has { hits += 1; }
        let got = match obs(m.try_insert_default(OrdU256(k))) { Ins::Evicted(k, _) => Ins::Evicted(big(&k.0), ()), Ins::Inserted => Ins::Inserted, Ins::Dup(_) => Ins::Dup(None), Ins::TooLarge => Ins::TooLarge, Ins::NotFound => Ins::NotFound };
        let want = if !model.insert(big(&k)) { Ins::Dup(None) } else if model.len() > CAP { Ins::Evicted(model.pop_last().unwrap(), ()) } else { Ins::Inserted };
        check!(got == want, "insert", "op {op}: set insert of {} returned {got:?}, model {want:?}", hex(&k));
        seen.push(k);
    }
    let mut m = ElusivSet::<OrdU256, CAP>::new(&mut data);
    for k in &seen {
        check!(m.contains(&OrdU256(*k)).is_some() == model.contains(&big(k)), "contains", "final sweep: membership of {} differs from the model", hex(k));
    }
    if hits > 0 && model.len() > 2 { let h = s.choices_hash(); s.nontrivial(h); }
    Ok(())
}
fn hex(k: &[u8]) -> String { k.iter().map(|b| format!("{b:02x}")).collect() }

/// the nullifier map itself: 2^16 entries, the largest length that its pointers can address
const FULL: usize = elusiv::state::nullifier::NULLIFIERS_PER_ACCOUNT;
type FullMap<'a> = elusiv::state::nullifier::NullifierMap<'a>;
const SPARE: usize = 260;

fn full_key(i: u64, w: u64) -> [u8; 32] { ord(i + 1, w).0 }

/// a map with `FULL - SPARE` entries, inserted in ascending or scrambled order
fn full_image(scrambled: bool) -> &'static (Vec<u8>, BTreeSet<[u8; 32]>) {
    static IMAGES: [std::sync::OnceLock<(Vec<u8>, BTreeSet<[u8; 32]>)>; 2] = [std::sync::OnceLock::new(), std::sync::OnceLock::new()];
    IMAGES[scrambled as usize].get_or_init(|| {
        let mut data = vec![0u8; FullMap::SIZE];
        let mut model = BTreeSet::new();
        let mut m = FullMap::new(&mut data);
        for i in 0..FULL as u64 {
            let i = if scrambled { (i * 40503 + 77) % FULL as u64 } else { i };
            if i as usize >= FULL - SPARE { continue; }
            let k = full_key(i, 0);
            let _ = m.try_insert_default(OrdU256(k));
            model.insert(big(&k));
        }
        (data, model)
    })
}

/// insertions into the (almost) full map of a nullifier account
fn run_full(s: &mut Src) -> Res {
    let scrambled = s.chance(1, 2);
    let (data, model) = full_image(scrambled);
    let (mut data, mut model) = (data.clone(), model.clone());
    // up to the state around the last free entry
    let fill = match s.weighted(&[4, 2, 1, 2, 1]) { 0 => SPARE, 1 => SPARE - 1, 2 => SPARE - 2, 3 => 0, _ => s.usize(0, SPARE) };
    {
        let mut m = FullMap::new(&mut data);
        let mode = s.below(3);
        for i in 0..fill {
            let k = match mode { 0 => full_key((FULL - SPARE + i) as u64, 0), 1 => full_key((i * 251) as u64, 7), _ => full_key(s.range(0, FULL as u64), 1 << s.below(60)) };
            let got = match obs(m.try_insert_default(OrdU256(k))) { Ins::Inserted => true, Ins::Dup(_) => false, r => return fail("insert", format!("insertion {i} into the map with free entries: {r:?}")) };
            check!(got == model.insert(big(&k)), "insert", "insertion {i} of {} before the map is full: accepted {got}", hex(&k));
        }
    }
    let n = s.usize(1, 120);
    let (mut evicts, mut dups) = (0, 0);
    let mut touched: Vec<[u8; 32]> = vec![];
    // the positions the map keeps pointers to, their neighbours and anything else
    let place = |s: &mut Src| -> u64 {
        match s.below(4) {
            0 => { let c = (1 + s.below(255) as u64) * 256; (c + s.range(0, 4)).saturating_sub(2) }
            1 => s.range(0, 4),
            2 => (FULL as u64 + s.range(0, 6)).saturating_sub(4 + (SPARE * s.below(2)) as u64),
            _ => s.range(0, FULL as u64),
        }
    };
    let mut m = FullMap::new(&mut data);
    for op in 0..n {
        let k = match s.below(4) {
            0 => full_key(place(s), 0),
            1 if !touched.is_empty() => s.pick(&touched),
            _ => full_key(place(s), 1 + s.range(0, 1 << 20)),
        };
        let has = m.contains(&OrdU256(k)).is_some();
        check!(has == model.contains(&big(&k)), "contains", "op {op}: contains({}) = {has}, model {}; {} entries", hex(&k), !has, model.len());
        if s.chance(3, 4) {
            let got = match obs(m.try_insert_default(OrdU256(k))) { Ins::Evicted(k, _) => Ins::Evicted(big(&k.0), ()), Ins::Inserted => Ins::Inserted, Ins::Dup(_) => Ins::Dup(None), Ins::TooLarge => Ins::TooLarge, Ins::NotFound => Ins::NotFound };
            let want = if !model.insert(big(&k)) { dups += 1; Ins::Dup(None) } else if model.len() > FULL { evicts += 1; Ins::Evicted(model.pop_last().unwrap(), ()) } else { Ins::Inserted };
            check!(got == want, "insert", "op {op}: insertion of {} returned {got:?}, model {want:?}; {} entries", hex(&k), model.len());
        }
        check!(big(&m.max().0) == *model.last().unwrap(), "max", "op {op}: maximum {}, {} entries", hex(&m.max().0), model.len());
        check!(big(&m.min().0) == *model.first().unwrap(), "min", "op {op}: minimum {}, {} entries", hex(&m.min().0), model.len());
        check_eq!(m.is_full(), model.len() == FULL, "is_full", "op {op}: is_full with {} entries", model.len());
        touched.push(k);
    }
    for i in 0..200 + touched.len() {
        let k = if i < 200 { full_key(place(s), 0) } else { touched[i - 200] };
        let has = m.contains(&OrdU256(k)).is_some();
        check!(has == model.contains(&big(&k)), "contains", "final sweep: contains({}) = {has}, model {}; {} entries", hex(&k), !has, model.len());
    }
    s.label(if model.len() == FULL { "full" } else { "not-full" });
    if scrambled { s.label("scrambled"); }
    if evicts > 0 || dups > 0 { let h = s.choices_hash(); s.nontrivial(h); }
    Ok(())
}

/// after `reset` an arbitrarily used map behaves like a new one
fn run_reset<const CAP: usize>(s: &mut Src) -> Res {
    let size = <ElusivMap<'static, u32, elusiv_val::V, CAP>>::SIZE;
    let mut data = vec![0u8; size];
    let n1 = s.usize(0, CAP * 2);
    for _ in 0..n1 { let k = s.range(0, CAP as u64 * 3) as u32; let mut m = ElusivMap::<u32, elusiv_val::V, CAP>::new(&mut data); let _ = m.try_insert(k, &elusiv_val::V(9)); }
    { ElusivMap::<u32, elusiv_val::V, CAP>::new(&mut data).reset(); }
    let mut model = BTreeMap::new();
    let n2 = s.usize(0, CAP * 2);
    for op in 0..n2 {
        let k = s.range(0, CAP as u64 * 3) as u32;
        let r = guard(|| { let mut m = ElusivMap::<u32, elusiv_val::V, CAP>::new(&mut data); (m.contains(&k).is_some(), obs(m.try_insert(k, &elusiv_val::V(op as u64)))) });
        let has = model.contains_key(&k);
        let want = model_insert(&mut model, CAP, k, op as u64);
        match r {
            Err(e) => return fail("reset-panic", format!("after reset, op {op} on key {k} panicked: {e}")),
            Ok((c, got)) => {
                let same = match (&got, &want) { (Ins::Inserted, Ins::Inserted) => true, (Ins::Evicted(k, v), Ins::Evicted(k2, v2)) => k == k2 && v.0 == *v2, (Ins::Dup(_), Ins::Dup(_)) => true, _ => false };
                check!(c == has && same, "reset", "after reset, op {op}: key {k}: contains {c} (model {has}), insert {got:?} (model {want:?})");
            }
        }
    }
    if n1 >= CAP / 2 && n2 >= CAP / 2 { let h = s.choices_hash(); s.nontrivial(h); }
    Ok(())
}

fn main() {
    Suite::new("P02", "histories with at least one eviction or duplicate on a map holding two or more entries")
        .test("map-small", 40000, 2000000, |s| { let n = s.usize(1, 60); match s.below(4) { 0 => run_map::<2>(s, n), 1 => run_map::<5>(s, n), 2 => run_map::<7>(s, n), _ => run_map::<16>(s, n) } })
        .test("map-large", 6000, 300000, |s| { let n = s.usize(1, 700); match s.below(4) { 0 => run_map::<17>(s, n), 1 => run_map::<40>(s, n), 2 => run_map::<129>(s, n), _ => run_map::<500>(s, n) } })
        .test("set-u256", 12000, 600000, |s| { let n = s.usize(1, 150); match s.below(3) { 0 => run_set::<9>(s, n), 1 => run_set::<48>(s, n), _ => run_set::<400>(s, n) } })
        .test("set-production", 400, 20000, run_full)
        .test("reset", 8000, 400000, |s| match s.below(3) { 0 => run_reset::<7>(s), 1 => run_reset::<33>(s), _ => run_reset::<100>(s) })
        .main()
}
