//! Property P01: a nullifier hash is accepted exactly once over the whole history of a tree's nullifier account,
//! across its child accounts and while values are being moved between them.
use elusiv::state::nullifier::{NullifierAccount, NullifierMap, NULLIFIERS_PER_ACCOUNT};
use elusiv::types::OrdU256;
use elusiv_types::accounts::ParentAccount;
use elusiv_types::bytes::ElusivOption;
use harness::acct::{parent_for, Parent};
use harness::prelude::*;
use std::collections::BTreeSet;
use std::sync::OnceLock;

type K = [u8; 32];
fn big(k: &K) -> K { let mut b = *k; b.reverse(); b }
fn hex(k: &K) -> String { big(k).iter().map(|b| format!("{b:02x}")).collect() }

/// preloaded key of rank `i` in child `c`, plus an offset which keeps it strictly between neighbours
fn pre(c: usize, i: usize, off: u64) -> K {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&off.to_le_bytes());
    b[24..].copy_from_slice(&((((c * NULLIFIERS_PER_ACCOUNT + i) as u64) + 2) << 20).to_le_bytes());
    b
}

const N: usize = NULLIFIERS_PER_ACCOUNT;

/// a child holding the first `n` preloaded keys of child `c` (n within 8 of full)
fn child(c: usize, n: usize) -> Vec<u8> {
    static FULL: OnceLock<Vec<Vec<Vec<u8>>>> = OnceLock::new();
    let t = FULL.get_or_init(|| (0..2).map(|c| {
        let size = <<NullifierAccount as ParentAccount>::Child as elusiv_types::accounts::SizedAccount>::SIZE;
        let mut data = vec![0u8; size];
        data[0] = 1;
        let mut out = vec![];
        for i in 0..=N {
            if N - i <= 8 { out.push(data.clone()); }
            if i < N { assert!(NullifierMap::new(&mut data[1..]).try_insert_default(OrdU256(pre(c, i, 0))).is_ok()); }
        }
        out
    }).collect());
    t[c][n - (N - 8)].clone()
}

struct Sim {
    p: Parent,
    /// every accepted nullifier hash which is not part of the preloaded prefix
    set: BTreeSet<K>,
    preloaded: Vec<usize>,
}

impl Sim {
    fn in_set(&self, k: &K) -> bool {
        if self.set.contains(&big(k)) { return true; }
        self.preloaded.iter().enumerate().any(|(c, n)| {
            let hi = u64::from_le_bytes(k[24..].try_into().unwrap());
            let r = (hi >> 20).wrapping_sub(2).wrapping_sub((c * N) as u64);
            r < *n as u64 && pre(c, r as usize, 0) == *k
        })
    }
}

fn new_sim(s: &mut Src, kind: usize) -> Sim {
    let avail: &[usize] = match kind { 0 => &[0], 1 => &[0, 1, 2], _ => &[0, 1, 2, 3] };
    let mut p = parent_for::<NullifierAccount>(avail);
    let mut preloaded = vec![];
    if kind > 0 {
        let short = s.usize(0, 6);
        if kind == 1 { preloaded.push(N - short) } else { preloaded.push(N); preloaded.push(N - short) }
        for (c, n) in preloaded.iter().enumerate() { p.children[c] = Some(child(c, *n)); }
        let count: usize = preloaded.iter().sum();
        with_parent!(p, NullifierAccount, |a| {
            a.set_nullifier_hash_count(&(count as u32));
            for (c, n) in preloaded.iter().enumerate() { a.set_max_values(c, &ElusivOption::Some(pre(c, *n - 1, 0))); }
        });
        s.label(format!("children-preloaded={}", preloaded.len()));
    }
    Sim { p, set: BTreeSet::new(), preloaded }
}

fn gen_key(s: &mut Src, sim: &Sim, used: &[K]) -> K {
    if !used.is_empty() && s.chance(1, 4) { return s.pick(used); }
    if !used.is_empty() && s.chance(1, 5) { let mut k = s.pick(used); let i = s.below(24); k[i] = k[i].wrapping_add(if s.bool() { 1 } else { 255 }); return k; }
    if sim.preloaded.is_empty() {
        return match s.below(3) { 0 => s.bytes::<32>(), 1 => { let mut k = [0u8; 32]; k[0] = s.u8() % 16; k[31] = s.u8() % 4; k } _ => { let mut k = [0; 32]; k[s.below(32)] = s.u8(); k } };
    }
    let c = s.below(sim.preloaded.len());
    let n = sim.preloaded[c];
    let rank = match s.below(7) { 0 => 0, 1 => s.usize(0, 3), 2 => n - 1, 3 => n - 1 - s.usize(0, 10), 4 => s.below(n), 5 => N, _ => (n / 16) * s.usize(0, 15) };
    if rank == N && c == sim.preloaded.len() - 1 && s.bool() { let mut k = s.bytes::<32>(); k[31] |= 0x10; return k; } // above everything
    if rank == 0 && c == 0 && s.bool() { let mut k = [0u8; 32]; k[s.below(20)] = s.u8(); return k; } // below everything
    let r = if rank == N { n - 1 } else { rank };
    pre(c, r, match s.below(4) { 0 => 0, 1 => 1, 2 => s.range(1, 5), _ => s.u64() })
}

fn run(s: &mut Src, kind: usize, max_ops: usize) -> Res {
    let mut sim = new_sim(s, kind);
    let mut used: Vec<K> = vec![];
    let (mut accepted, mut rejected, mut moves) = (0u32, 0u32, 0u32);
    let base: usize = sim.preloaded.iter().sum();
    let n = s.usize(1, max_ops);
    let mut pending = 0; // insertions since the last time no value was waiting to be moved
    for op in 0..n {
        let k = gen_key(s, &sim, &used);
        match s.weighted(&[6, 3, 3]) {
            0 if pending < 4 => {
                let known = sim.in_set(&k);
                let r = guard(|| with_parent!(sim.p, NullifierAccount, |a| (a.try_insert_nullifier_hash(k), a.is_moved_nullifier_empty(), a.get_nullifier_hash_count())));
                let (r, empty, count) = match r { Ok(r) => r, Err(e) => return fail("panic", format!("op {op}: inserting {} panicked: {e}", hex(&k))) };
                s.log(|| format!("insert {} -> {:?} moved_empty={empty}", hex(&k), r.is_ok()));
                if known {
                    check!(r.is_err(), "double-insert", "op {op}: nullifier {} was accepted a second time", hex(&k));
                    rejected += 1;
                    // a failed instruction is rolled back by the runtime; the library must not have changed the count
                    check_eq!(count as usize, base + sim.set.len(), "count", "op {op}: count after a rejected insertion");
                } else {
                    check!(r.is_ok(), "fresh-rejected", "op {op}: fresh nullifier {} was rejected: {:?}", hex(&k), r);
                    sim.set.insert(big(&k));
                    accepted += 1;
                    check_eq!(count as usize, base + sim.set.len(), "count", "op {op}: nullifier count");
                }
                used.push(k);
                pending = if empty { 0 } else { pending + 1 };
            }
            1 => {
                let r = with_parent!(sim.p, NullifierAccount, |a| a.can_insert_nullifier_hash(k));
                let want = !sim.in_set(&k);
                check!(r == Ok(want), "can-insert", "op {op}: can_insert({}) = {r:?}, but {}", hex(&k), if want { "it was never inserted" } else { "it was already inserted" });
                if !want { rejected += 1; }
            }
            _ => {
                let r = guard(|| with_parent!(sim.p, NullifierAccount, |a| {
                    if a.is_moved_nullifier_empty() { (Ok(()), true, false) } else { let r = a.move_nullifier_hashes_to_next_account(); (r, a.is_moved_nullifier_empty(), true) }
                }));
                let (r, empty, did) = match r { Ok(r) => r, Err(e) => return fail("panic", format!("op {op}: moving values panicked: {e}")) };
                check!(r.is_ok(), "move-failed", "op {op}: moving values to the next account failed: {r:?}");
                s.log(|| format!("move did={did} empty={empty}"));
                if did { moves += 1; }
                if empty { pending = 0; }
            }
        }
    }
    // final sweep over everything accepted, with values possibly still waiting to be moved, then after moving them
    for pass in 0..2 {
        for k in used.iter().chain([pre(0, 0, 0), pre(0, N - 1, 0), pre(1, 0, 0), pre(0, N / 2, 0), pre(1, N - 9, 0)].iter()) {
            let r = with_parent!(sim.p, NullifierAccount, |a| a.can_insert_nullifier_hash(*k));
            check!(r == Ok(!sim.in_set(k)), "can-insert", "final sweep {pass}: can_insert({}) = {r:?}, inserted before: {}", hex(k), sim.in_set(k));
        }
        for _ in 0..16 {
            let done = with_parent!(sim.p, NullifierAccount, |a| a.is_moved_nullifier_empty() || { let r = a.move_nullifier_hashes_to_next_account(); if r.is_err() { panic!("{r:?}") } false });
            if done { break; }
        }
    }
    s.label(format!("kind={kind}"));
    if moves > 0 { s.label("with-moves"); }
    if accepted > 0 && rejected > 0 { let h = s.choices_hash(); s.nontrivial(h); }
    Ok(())
}

/// the account refuses any insertion once 2^20 hashes are counted
fn full(s: &mut Src) -> Res {
    let mut p = parent_for::<NullifierAccount>(&[15]);
    let count = (1u32 << 20) - s.range(0, 3) as u32;
    let k = s.bytes::<32>();
    let mut k = k; k[31] |= 0x80; k[30] = 0xff;
    let r = with_parent!(p, NullifierAccount, |a| {
        a.set_nullifier_hash_count(&count);
        for i in 0..16 { let mut m = [0u8; 32]; m[31] = i as u8; a.set_max_values(i, &ElusivOption::Some(m)); }
        (a.can_insert_nullifier_hash(k), a.try_insert_nullifier_hash(k))
    });
    if count == 1 << 20 {
        check!(r.0.is_err() && r.1.is_err(), "overfull", "insertion into an account counting 2^20 hashes succeeded: {r:?}");
        let h = s.choices_hash(); s.nontrivial(h);
    } else {
        check!(r.0 == Ok(true) && r.1.is_ok(), "fresh-rejected", "insertion at count {count} failed: {r:?}");
    }
    Ok(())
}

fn main() {
    child(0, N);
    Suite::new("P01", "histories with at least one accepted insertion and at least one repeated nullifier hash")
        .assume("preloaded child maps are built through NullifierMap::try_insert_default in ascending order")
        .test("fresh-account", 20000, 1000000, |s| run(s, 0, 60))
        .test("one-full-child", 6000, 200000, |s| run(s, 1, 60))
        .test("two-full-children", 5000, 150000, |s| run(s, 2, 60))
        .test("count-limit", 200, 2000, full)
        .main()
}
