//! Property P04: the duplicate-detection buffers reject exactly the values among their last 128 insertions.
use elusiv::buffer::RingBuffer;
use elusiv::state::commitment::{BaseCommitmentBufferAccount, CommitmentBufferAccount, COMMITMENT_BUFFER_LEN};
use elusiv_types::accounts::{ProgramAccount, SizedAccount};
use elusiv::types::{Proof, RawU256};
use elusiv_types::ElusivOption;
use elusiv::state::proof::VerificationAccount;
use harness::prelude::*;
use harness::send::*;
use harness::settle::*;
use harness::world::*;

const L: usize = COMMITMENT_BUFFER_LEN as usize;

macro_rules! history {
    ($s:ident, $acc:ident) => {{
        let s: &mut Src = $s;
        let mut data = vec![0u8; <$acc as SizedAccount>::SIZE];
        let mut hist: Vec<[u8; 32]> = vec![];
        let (mut dup, mut n) = (0, 0u64);
        for op in 0..s.usize(1, 40) {
            let mut a = <$acc as ProgramAccount>::new(&mut data).unwrap();
            let mut gen = |s: &mut Src, hist: &Vec<[u8; 32]>| -> [u8; 32] {
                n += 1;
                match s.weighted(&[6, 4, 2, 1, 2, 2, 2]) {
                    0 => { let mut v = [0u8; 32]; v[..8].copy_from_slice(&n.to_le_bytes()); v[31] = 1; v }
                    // one of the oldest / youngest relevant values
                    1 if !hist.is_empty() => { let back = match s.below(4) { 0 => s.usize(1, 4), 1 => L, 2 => L + 1, _ => s.usize(1, L + 3) }; hist[hist.len().saturating_sub(back)] }
                    // unaligned or shifted neighbours of stored values must not count as duplicates
                    2 if !hist.is_empty() => { let v = s.pick(hist); let r = s.usize(1, 31); let mut w = v; w.rotate_left(r); w }
                    3 => [0u8; 32],
                    // parts of two entries that lie next to each other in the account
                    4 if hist.len() > 1 => {
                        let slot = |i: usize| hist[..].iter().enumerate().rev().find(|(j, _)| j % L == i).map_or([0; 32], |x| *x.1);
                        let (i, r) = (s.below(hist.len().min(L)), s.usize(1, 31));
                        [&slot(i)[r..], &slot((i + 1) % L)[..r]].concat().try_into().unwrap()
                    }
                    // all but one byte of a stored value
                    5 if !hist.is_empty() => { let mut w = s.pick(hist); w[s.below(32)] ^= 1 << s.below(8); w }
                    _ => s.bytes::<32>(),
                }
            };
            match s.below(3) {
                0 | 1 => {
                    let burst = match s.below(4) { 0 => 1, 1 => s.usize(1, 10), 2 => L - 2, _ => s.usize(1, L + 10) };
                    for _ in 0..burst {
                        let v = gen(s, &hist);
                        let known = hist.iter().rev().take(L).any(|x| *x == v);
                        let r = a.try_insert(&v);
                        if known { dup += 1; check!(r.is_err(), "duplicate", "op {op}: a value among the last {L} insertions was accepted again (history {})", hist.len()); }
                        else { check!(r.is_ok(), "fresh", "op {op}: a value not among the last {L} insertions was rejected (history {})", hist.len()); hist.push(v); }
                    }
                    s.log(|| format!("insert x{burst} -> {}", hist.len()));
                }
                _ => {
                    let v = gen(s, &hist);
                    let pos = hist.iter().rposition(|x| *x == v).filter(|p| hist.len() - p <= L);
                    check_eq!(a.contains(&v), pos.is_some(), "contains", "op {op}: contains (history {})", hist.len());
                    check_eq!(a.find_position(&v), pos.map(|p| p % L), "position", "op {op}: find_position (history {})", hist.len());
                    check_eq!(a.len(), hist.len().min(L), "len", "op {op}: len");
                }
            }
        }
        s.label(if hist.len() > L { "wrapped" } else { "not-wrapped" });
        if dup > 0 && hist.len() > 1 { let h = s.choices_hash(); s.nontrivial(h); }
        Ok(())
    }};
}

/// The program's own use of the buffer: requested sends enter their output commitment, a forfeited send (its proof was invalid) releases
/// exactly its own one, and whatever happens in between, the last 128 entries are the ones which are rejected.
fn sends(s: &mut Src) -> Res {
    let t = template();
    let mut w = t.w.clone();
    let key = pda::<CommitmentBufferAccount>();
    // None: released
    let mut hist: Vec<Option<[u8; 32]>> = vec![];
    // (the commitments of the template)
    hist.extend((0..with_acc!(w, key, CommitmentBufferAccount, |a| a.len())).map(|_| None));
    let mut n = 0u64;
    let mut fill = |w: &mut World, hist: &mut Vec<Option<[u8; 32]>>, count: usize| {
        for _ in 0..count {
            n += 1;
            let mut v = [0u8; 32];
            v[..8].copy_from_slice(&n.to_le_bytes());
            v[9] = 1;
            with_acc!(w, key, CommitmentBufferAccount, |a| check!(a.try_insert(&v).is_ok(), "fresh", "a value not among the last {L} insertions was rejected (history {})", hist.len()));
            hist.push(Some(v));
        }
        Ok(())
    };
    let known = |hist: &Vec<Option<[u8; 32]>>, v: &[u8; 32]| hist.iter().rev().take(L).any(|x| *x == Some(*v));
    let c = match s.below(4) { 0 => s.below(4), 1 => L - 3 + s.below(6), 2 => 2 * L - 3 + s.below(6), _ => s.usize(0, 2 * L) };
    fill(&mut w, &mut hist, c)?;
    let nullifiers: Vec<B32> = (0..12).map(|_| gen_field(s)).collect();
    for (i, a) in nullifiers.iter().enumerate() { if nullifiers[..i].contains(a) { return Ok(()) } }
    let mut open: Vec<(Send, Fees)> = vec![];
    let mut outputs: Vec<B32> = vec![];
    let (mut released, mut rejected) = (0, 0);
    for op in 0..s.usize(2, 8) {
        match s.below(5) {
            0 | 1 if op < 8 => {
                let mut v = gen_send(s, &mut w, op, &nullifiers[op % 12..op % 12 + 1], t);
                v.inputs.truncate(1);
                v.index = op as u8;
                if !outputs.is_empty() && s.bool() { v.output = s.pick(&outputs); }
                let Some(f) = set_fee(&w, &mut v, 0) else { continue };
                let c = RawU256::new(v.output).reduce();
                let ixs = v.init_ixs(&w);
                let r = w.svm.tx(&ixs, &[v.ofp]);
                s.log(|| format!("request #{op} (history {}): {r:?}", hist.len()));
                if known(&hist, &c) {
                    check!(r.is_err(), "duplicate", "a send whose output commitment is among the last {L} ones is accepted (history {})", hist.len());
                    rejected += 1;
                } else if r.is_ok() { hist.push(Some(c)); outputs.push(v.output); open.push((v, f)); }
            }
            2 => { let c = s.pick(&[1usize, 2, 3, L - 1, L]); fill(&mut w, &mut hist, c)?; }
            _ if !open.is_empty() => {
                let (v, f) = open.remove(s.below(open.len()));
                let valid = s.chance(1, 4);
                let r = w.svm.tx(&[w.init_proof_ix(v.ofp, v.index, Proof { a: zero_g1(), b: zero_g2(), c: zero_g1() })], &[v.ofp]);
                if r.is_err() { s.log(|| format!("proof: {r:?}")); continue }
                with_acc!(w, v.account(), VerificationAccount, |a| a.set_is_verified(&ElusivOption::Some(valid)));
                let ixs = v.finalize_ixs(&mut w, &f, valid);
                let r = w.svm.tx(&ixs, &[v.ofp]);
                s.log(|| format!("settlement, valid {valid} (history {}): {r:?}", hist.len()));
                if r.is_err() { s.label("settlement rejected"); continue }
                if !valid {
                    let c = Some(RawU256::new(v.output).reduce());
                    if let Some(i) = hist.iter().rposition(|x| *x == c).filter(|i| hist.len() - i <= L) { hist[i] = None; released += 1; }
                }
            }
            _ => {}
        }
        let recent: Vec<[u8; 32]> = hist.iter().rev().take(L + 4).filter_map(|x| *x).chain(outputs.iter().map(|o| RawU256::new(*o).reduce())).collect();
        with_acc!(w, key, CommitmentBufferAccount, |a| for v in &recent {
            check!(a.contains(v) == known(&hist, v), "window", "op {op}: a value that is {}among the last {L} entries is {} (history {})", if known(&hist, v) { "" } else { "not " }, if known(&hist, v) { "accepted" } else { "rejected" }, hist.len());
        });
    }
    s.label(if released > 0 { "released" } else { "nothing released" });
    if released + rejected > 0 { let h = s.choices_hash(); s.nontrivial(h); }
    Ok(())
}

fn main() {
    Suite::new("P04", "histories with at least one duplicate attempt or (sends) released entry")
        .test("base-commitment-buffer", 4000, 200000, |s| history!(s, BaseCommitmentBufferAccount))
        .test("commitment-buffer", 4000, 200000, |s| history!(s, CommitmentBufferAccount))
        .test("sends", 4000, 100000, sends)
        .main()
}
