//! Property P03: the commitment and metadata queues are bounded FIFO queues; batches are taken from the front.
use elusiv::processor::CommitmentHashRequest;
use elusiv::state::commitment::{CommitmentQueue, CommitmentQueueAccount, COMMITMENT_QUEUE_LEN};
use elusiv::state::metadata::{MetadataQueue, MetadataQueueAccount};
use elusiv::state::queue::{Queue, RingQueue};
use elusiv_types::accounts::{ProgramAccount, SizedAccount};
use harness::prelude::*;
use std::collections::VecDeque;

const CAP: usize = COMMITMENT_QUEUE_LEN - 1;

/// generic history over any of the program's ring queues; `mk` runs a closure on a queue view over the bytes
macro_rules! history {
    ($s:ident, $acc:ident, $q:ident, $gen:expr, $extra:expr) => {{
        let s: &mut Src = $s;
        let mut data = vec![0u8; <$acc as SizedAccount>::SIZE];
        let mut model: VecDeque<<$q as RingQueue>::N> = VecDeque::new();
        let start = if s.bool() { s.range(0, CAP as u64) as u32 } else { 0 };
        { let mut a = <$acc as ProgramAccount>::new(&mut data).unwrap(); let mut q = $q::new(&mut a); q.set_head(&start); q.set_tail(&start); }
        let n = s.usize(1, 60);
        let (mut wrapped, mut full, mut removed, mut total) = (false, false, 0usize, start as usize);
        for op in 0..n {
            let mut a = <$acc as ProgramAccount>::new(&mut data).unwrap();
            let mut q = $q::new(&mut a);
            match s.weighted(&[5, 4, 3, 3, 2, 2, 3]) {
                0 => { // a burst of insertions
                    let burst = match s.below(4) { 0 => 1, 1 => s.usize(1, 5), 2 => s.usize(1, CAP + 3), _ => CAP - model.len() + s.below(2) };
                    for _ in 0..burst {
                        let v = $gen(s, total);
                        let r = q.enqueue(v.clone());
                        if model.len() < CAP {
                            check!(r.is_ok(), "enqueue", "op {op}: enqueue into a queue of {} of {CAP} elements failed: {r:?}", model.len());
                            model.push_back(v); total += 1;
                            if total > CAP + 1 { wrapped = true; }
                        } else {
                            check!(r.is_err(), "overfull", "op {op}: enqueue into a full queue succeeded");
                            full = true;
                        }
                    }
                    s.log(|| format!("enqueue x{burst} -> len {}", model.len()));
                }
                1 => {
                    let k = match s.below(3) { 0 => 1, 1 => s.usize(1, 6), _ => s.usize(1, CAP + 1) };
                    for _ in 0..k {
                        let r = q.dequeue_first();
                        match model.pop_front() {
                            Some(w) => { check!(r == Ok(w.clone()), "dequeue", "op {op}: dequeue_first is not the oldest element"); removed += 1; }
                            None => check!(r.is_err(), "dequeue-empty", "op {op}: dequeue from an empty queue succeeded"),
                        }
                    }
                    s.log(|| format!("dequeue x{k} -> len {}", model.len()));
                }
                2 => {
                    let k = if s.bool() { s.usize(0, 6) } else { s.usize(0, CAP + 3) };
                    let r = q.remove(k as u32);
                    s.log(|| format!("remove {k} of {}", model.len()));
                    if k <= model.len() { check!(r.is_ok(), "remove", "op {op}: remove({k}) of {} failed", model.len()); model.drain(..k); removed += k; }
                    else { check!(r.is_err(), "remove-too-many", "op {op}: remove({k}) of {} succeeded", model.len()); }
                }
                3 => {
                    let k = if s.bool() && !model.is_empty() { s.below(model.len()) } else { s.usize(0, CAP + 4) };
                    let r = q.view(k);
                    check!(r.as_ref().ok() == model.get(k), "view", "op {op}: view({k}) of a queue of {} differs from the model", model.len());
                    check!(q.view_first().ok().as_ref() == model.front(), "view", "op {op}: view_first differs from the model");
                }
                4 => {
                    let v = if !model.is_empty() && s.bool() { model[s.below(model.len())].clone() } else { $gen(s, total + 1000) };
                    check_eq!(q.contains(&v), model.contains(&v), "contains", "op {op}: contains");
                }
                5 => {
                    check_eq!(q.len() as usize, model.len(), "len", "op {op}: len");
                    check_eq!(q.is_empty(), model.is_empty(), "len", "op {op}: is_empty");
                    check_eq!(q.empty_slots() as usize, CAP - model.len(), "len", "op {op}: empty_slots");
                }
                _ => $extra(op, &q, &model)?,
            }
        }
        let mut a = <$acc as ProgramAccount>::new(&mut data).unwrap();
        let mut q = $q::new(&mut a);
        check_eq!(q.len() as usize, model.len(), "len", "final len");
        while let Some(w) = model.pop_front() {
            check!(q.dequeue_first() == Ok(w), "dequeue", "final drain: elements are lost, duplicated or out of order ({} left in the model)", model.len());
        }
        check!(q.dequeue_first().is_err(), "dequeue-empty", "final drain: queue has more elements than were inserted");
        if wrapped { s.label("wrapped"); }
        if full { s.label("hit-full"); }
        if removed > 0 && total > start as usize + 1 { let h = s.choices_hash(); s.nontrivial(h); }
        Ok(())
    }};
}

fn request(s: &mut Src, i: usize) -> CommitmentHashRequest {
    let mut c = [0u8; 32];
    c[..8].copy_from_slice(&(i as u64).to_le_bytes());
    c[31] = s.u8();
    CommitmentHashRequest { commitment: c, fee_version: s.weighted(&[30, 1]) as u32, min_batching_rate: s.weighted(&[8, 2, 2, 1, 1]) as u32 }
}

fn commitments(s: &mut Src) -> Res {
    history!(s, CommitmentQueueAccount, CommitmentQueue, request, |op: usize, q: &CommitmentQueue, model: &VecDeque<CommitmentHashRequest>| -> Res {
        let got = q.next_batch();
        let want = model_batch(model);
        match (&got, &want) {
            (Ok((b, r)), Some((wb, wr))) => { check!(b == wb && r == wr, "batch", "op {op}: next_batch returned {} requests at rate {r}, expected {} at rate {wr}", b.len(), wb.len()); }
            (Err(_), None) => {}
            _ => return fail("batch", format!("op {op}: next_batch ok={} but the model expects ok={} (queue length {})", got.is_ok(), want.is_some(), model.len())),
        }
        Ok(())
    })
}

/// the smallest prefix of 2^r requests where r is the largest batching rate requested within it, all with one fee version
fn model_batch(m: &VecDeque<CommitmentHashRequest>) -> Option<(Vec<CommitmentHashRequest>, u32)> {
    for r in 0..=4u32 {
        let n = 1usize << r;
        if m.len() < n { return None; }
        if m.iter().take(n).all(|x| x.min_batching_rate <= r) {
            let b: Vec<_> = m.iter().take(n).cloned().collect();
            if b.iter().any(|x| x.fee_version != b[0].fee_version) { return None; }
            return Some((b.clone(), b.iter().map(|x| x.min_batching_rate).max().unwrap()));
        }
    }
    None
}

fn metadata(s: &mut Src) -> Res {
    history!(s, MetadataQueueAccount, MetadataQueue, |s: &mut Src, i: usize| { let mut m = [0u8; 17]; m[..8].copy_from_slice(&(i as u64).to_le_bytes()); m[16] = s.u8(); m }, |_op: usize, _q: &MetadataQueue, _m: &VecDeque<[u8; 17]>| -> Res { Ok(()) })
}

fn main() {
    Suite::new("P03", "histories which insert at least two and remove at least one element")
        .test("commitment-queue", 8000, 300000, commitments)
        .test("metadata-queue", 8000, 300000, metadata)
        .main()
}
