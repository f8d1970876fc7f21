//! Property P21: each field of a program account has its own bytes. What is stored through a setter is read back, through the getters, the lazy
//! fields and the client's eager representation alike, and changes no other byte.
use borsh::{BorshDeserialize, BorshSerialize};
use elusiv::fields::*;
use elusiv::processor::ProofRequest;
use elusiv::state::commitment::*;
use elusiv::state::fee::*;
use elusiv::state::governor::*;
use elusiv::state::metadata::*;
use elusiv::state::nullifier::*;
use elusiv::state::proof::*;
use elusiv::state::storage::*;
use elusiv::state::vkey::*;
use elusiv::types::*;
use elusiv::elusiv_computation::RAM;
use ark_bn254::{Fq, Fq12, Fq2, Fq6};
use elusiv_types::accounts::*;
use elusiv_types::bytes::*;
use pbt::*;
use solana_program::account_info::AccountInfo;
use solana_program::pubkey::Pubkey;

/// A field's value in bytes
#[derive(Clone, Copy, PartialEq)]
enum K { B(usize), Bool, Opt(usize), OptBool, Enum(u8), Data, Request, LazyB(usize), LazyG(usize) }
use K::*;

impl K {
    fn size(self) -> usize {
        match self { B(n) | LazyB(n) => n, Bool | Enum(_) => 1, Opt(n) => n + 1, OptBool => 2, LazyG(n) => n + 1, Data => 32 + 32 + 33 + 1 + 4 + 2 + 8 * 6, Request => 1 + 4 + 4 * 32 + 2 * 33 + 2 + 32 + 4 + 4 + 8 + 8 + 40 + 2 + 17 + 64 }
    }
    fn gen(self, s: &mut Src) -> Vec<u8> {
        fn b(s: &mut Src, n: usize) -> Vec<u8> {
            match s.below(8) { 0 => vec![0; n], 1 => vec![255; n], 2 => { let x = s.u8(); vec![x; n] } _ => s.vec_u8(n) }
        }
        let mut v = match self {
            B(n) | LazyB(n) => b(s, n),
            Bool => vec![s.bool() as u8],
            Opt(n) => if s.bool() { [vec![1], b(s, n)].concat() } else { vec![0; n + 1] },
            OptBool => if s.bool() { vec![1, s.bool() as u8] } else { vec![0; 2] },
            Enum(n) => vec![s.below(n as usize) as u8],
            LazyG(n) => [b(s, n), vec![s.bool() as u8]].concat(),
            Data => [b(s, 64), Opt(32).gen(s), Bool.gen(s), b(s, 4 + 2 + 48)].concat(),
            Request => client::wire::request(&client::request(s)),
        };
        // what is left behind by a longer request
        if self == Request { let mut t = b(s, self.size()); t[..v.len()].copy_from_slice(&v); v = t; }
        assert_eq!(v.len(), self.size());
        v
    }
    /// the significant part of the bytes
    fn part(self, b: &[u8]) -> Vec<u8> { if self == Request { client::wire::request(&ProofRequest::deserialize(&mut &b[..]).unwrap()) } else { b.to_vec() } }
}

fn d<T: BorshDeserialize>(b: &[u8]) -> T { T::deserialize(&mut &b[..]).unwrap() }
fn e<T: BorshSerialize>(t: &T) -> Vec<u8> { t.try_to_vec().unwrap() }

macro_rules! account {
    ($fname:ident, $ty:ident, $eager:expr, [$( ($name:literal, $kind:expr, $n:expr, $get:expr, $set:expr) ),* $(,)?]) => {
        fn $fname(s: &mut Src) -> Res {
            type Get = fn(&mut $ty, usize) -> Vec<u8>;
            type Set = fn(&mut $ty, usize, &[u8]);
            let fields: Vec<(&str, K, usize, Option<Get>, Option<Set>)> = vec![$( ($name, $kind, $n, $get, $set) ),*];
            let eager: Option<fn(Vec<u8>) -> Result<(Vec<u8>, Option<Vec<u8>>), std::io::Error>> = $eager;
            let at: Vec<usize> = fields.iter().scan(2, |a, f| { let x = *a; *a += f.1.size() * f.2; Some(x) }).collect();
            let size = fields.iter().fold(2, |a, f| a + f.1.size() * f.2);
            check_eq!(<$ty as SizedAccount>::SIZE, size, "size", "{}: size", stringify!($ty));
            let mut model = vec![s.u8(), s.u8()];
            for f in &fields { for _ in 0..f.2 { model.extend(f.1.gen(s)); } }
            let mut data = model.clone();
            // any other size is refused
            let mut other = model.clone();
            match s.below(4) { 0 => { other.pop(); } 1 => other.push(0), 2 => other.truncate(2), _ => other.extend(vec![0; 31]) }
            let same = other.len() == size;
            check_eq!($ty::new(&mut other).is_ok(), same, "size", "{}: accepts {} bytes (of {size})", stringify!($ty), if same { "" } else { "another number of" });
            let mut sets = 0;
            let mut hash = fnv(&model);
            for _ in 0..s.usize(1, 4) {
                {
                    let mut a = match guard(|| $ty::new(&mut data).is_ok()) { Ok(true) => $ty::new(&mut data).unwrap(), _ => return fail("new", format!("{}: {} bytes are refused", stringify!($ty), size)) };
                    for _ in 0..s.usize(1, 5) {
                        let f = s.below(fields.len().max(1));
                        if fields.is_empty() { continue }
                        let (name, kind, n, get, set) = &fields[f];
                        let i = s.below(*n);
                        let range = at[f] + i * kind.size()..at[f] + (i + 1) * kind.size();
                        if let (Some(set), true) = (set, s.bool()) {
                            let v = kind.part(&kind.gen(s));
                            s.log(|| format!("set {name}[{i}] = {v:02x?}"));
                            if guard(|| set(&mut a, i, &v)).is_err() { return fail("set", format!("{}: setting {name}[{i}] panics", stringify!($ty))) }
                            model[range.start..range.start + v.len()].copy_from_slice(&v);
                            sets += 1;
                            hash ^= fnv(&v).rotate_left((at[f] % 64) as u32);
                        }
                        if let Some(get) = get {
                            match guard(|| get(&mut a, i)) {
                                Ok(v) => check_eq!(v, kind.part(&model[range]), "get", "{}: {name}[{i}] reads", stringify!($ty)),
                                Err(_) => return fail("get", format!("{}: reading {name}[{i}] panics", stringify!($ty))),
                            }
                        }
                    }
                }
                if let Some(x) = (0..size).find(|x| data[*x] != model[*x]) {
                    let f = at.iter().rposition(|a| *a <= x).map(|f| fields[f].0).unwrap_or("pda_data");
                    return fail("bytes", format!("{}: byte {x} (of {f}) is {}, expected {}", stringify!($ty), data[x], model[x]))
                }
            }
            // all values at the end
            {
                let mut a = $ty::new(&mut data).unwrap();
                for (f, (name, kind, n, get, _)) in fields.iter().enumerate() {
                    if let Some(get) = get {
                        for i in 0..*n {
                            let range = at[f] + i * kind.size()..at[f] + (i + 1) * kind.size();
                            check_eq!(get(&mut a, i), kind.part(&model[range]), "get", "{}: {name}[{i}] reads", stringify!($ty));
                        }
                    }
                }
            }
            check!(data == model, "bytes", "{}: reading changed the data", stringify!($ty));
            // the client's representation
            if let Some(eager) = eager {
                let mut expected = model[..2].to_vec();
                for (f, (_, kind, n, _, _)) in fields.iter().enumerate() {
                    for i in 0..*n {
                        let v = kind.part(&model[at[f] + i * kind.size()..at[f] + (i + 1) * kind.size()]);
                        if matches!(kind, LazyB(_) | LazyG(_)) { expected.extend((v.len() as u32).to_le_bytes()); }
                        expected.extend(v);
                    }
                }
                let mut other = model.clone();
                if s.bool() { other.push(s.u8()); } else { other.pop(); }
                check!(!matches!(guard(|| eager(other.clone())), Ok(Ok(_))), "eager-size", "{}: an eager representation of {} bytes (of {size})", stringify!($ty), other.len());
                match guard(|| eager(model.clone())).and_then(|r| r.map_err(|e| e.to_string())) {
                    Ok((_, Some(children))) if children != model[at[0]..at[1]] => return fail("eager-children", format!("{}: the children of the eager representation are {children:?}, expected {:?}", stringify!($ty), &model[at[0]..at[1]])),
                    Ok((v, _)) => if v != expected {
                        let x = (0..v.len().min(expected.len())).find(|x| v[*x] != expected[*x]).unwrap_or(v.len().min(expected.len()));
                        return fail("eager", format!("{}: the eager representation differs at byte {x} of {} / {}", stringify!($ty), v.len(), expected.len()))
                    },
                    Err(m) => return fail("eager-err", format!("{}: no eager representation of a valid account ({m})", stringify!($ty))),
                }
            }
            s.label(stringify!($ty));
            if sets > 0 || !fields.iter().any(|f| f.4.is_some()) { s.nontrivial(hash); }
            Ok(())
        }
    };
}

macro_rules! eager {
    ($t:ident) => { Some(|b: Vec<u8>| Ok((e(&<$t as EagerAccountRepr>::new(b)?), None))) };
    ($t:ident, parent) => { Some(|b: Vec<u8>| { let r = <$t as EagerAccountRepr>::new(b)?; let c = r.child_pubkeys().into_iter().flat_map(optb).collect(); Ok((e(&r), Some(c))) }) };
}
macro_rules! opt { ($b:expr) => { if $b[0] == 0 { ElusivOption::None } else { ElusivOption::Some(Pubkey::new_from_array($b[1..33].try_into().unwrap())) } } }
fn optb(o: Option<Pubkey>) -> Vec<u8> { match o { None => vec![0; 33], Some(p) => [vec![1], p.to_bytes().to_vec()].concat() } }

account!(governor, GovernorAccount, eager!(GovernorAccountEager), [
    ("fee_version", B(4), 1, Some(|a, _| e(&a.get_fee_version())), Some(|a, _, b| a.set_fee_version(&d(b)))),
    ("program_fee", B(64), 1, Some(|a, _| e(&a.get_program_fee())), Some(|a, _, b| a.set_program_fee(&d(b)))),
    ("commitment_batching_rate", B(4), 1, Some(|a, _| e(&a.get_commitment_batching_rate())), Some(|a, _, b| a.set_commitment_batching_rate(&d(b)))),
    ("program_version", B(4), 1, None, None),
]);
account!(pool, PoolAccount, eager!(PoolAccountEager), []);
account!(fee_collector, FeeCollectorAccount, eager!(FeeCollectorAccountEager), []);
account!(duplicate, NullifierDuplicateAccount, None, []);
account!(fee_account, FeeAccount, None, [
    ("program_fee", B(64), 1, Some(|a, _| e(&a.get_program_fee())), Some(|a, _, b| a.set_program_fee(&d(b)))),
]);
account!(base_hashing, BaseCommitmentHashingAccount, eager!(BaseCommitmentHashingAccountEager), [
    ("instruction", B(4), 1, Some(|a, _| e(&a.get_instruction())), Some(|a, _, b| a.set_instruction(&d(b)))),
    ("round", B(4), 1, Some(|a, _| e(&ComputationAccount::round(a))), None),
    ("fee_version", B(4), 1, Some(|a, _| e(&a.get_fee_version())), Some(|a, _, b| a.set_fee_version(&d(b)))),
    ("fee_payer", B(32), 1, Some(|a, _| e(&a.get_fee_payer())), Some(|a, _, b| a.set_fee_payer(&d(b)))),
    ("is_active", Bool, 1, Some(|a, _| e(&a.get_is_active())), Some(|a, _, b| a.set_is_active(&d(b)))),
    ("token_id", B(2), 1, None, None),
    ("state", B(96), 1, Some(|a, _| e(&a.get_state())), Some(|a, _, b| a.set_state(&d(b)))),
    ("min_batching_rate", B(4), 1, Some(|a, _| e(&a.get_min_batching_rate())), Some(|a, _, b| a.set_min_batching_rate(&d(b)))),
    ("metadata", B(17), 1, Some(|a, _| e(&a.get_metadata())), Some(|a, _, b| a.set_metadata(&d(b)))),
]);
account!(hashing, CommitmentHashingAccount, eager!(CommitmentHashingAccountEager), [
    ("instruction", B(4), 1, Some(|a, _| e(&a.get_instruction())), Some(|a, _, b| a.set_instruction(&d(b)))),
    ("round", B(4), 1, Some(|a, _| e(&ComputationAccount::round(a))), None),
    ("fee_version", B(4), 1, Some(|a, _| e(&a.get_fee_version())), Some(|a, _, b| a.set_fee_version(&d(b)))),
    ("is_active", Bool, 1, Some(|a, _| e(&a.get_is_active())), Some(|a, _, b| a.set_is_active(&d(b)))),
    ("setup", Bool, 1, Some(|a, _| e(&a.get_setup())), Some(|a, _, b| a.set_setup(&d(b)))),
    ("finalization_ix", B(4), 1, Some(|a, _| e(&a.get_finalization_ix())), Some(|a, _, b| a.set_finalization_ix(&d(b)))),
    ("batching_rate", B(4), 1, Some(|a, _| e(&a.get_batching_rate())), Some(|a, _, b| a.set_batching_rate(&d(b)))),
    ("state", B(96), 1, None, None),
    ("ordering", B(4), 1, Some(|a, _| e(&a.get_ordering())), Some(|a, _, b| a.set_ordering(&d(b)))),
    ("siblings", B(32), 20, Some(|a, i| e(&a.get_siblings(i))), Some(|a, i, b| a.set_siblings(i, &d(b)))),
    ("above_hashes", B(32), 20, None, None),
    ("hash_tree", B(32), 31, Some(|a, i| e(&a.get_hash_tree(i))), Some(|a, i, b| a.set_hash_tree(i, &d(b)))),
]);
account!(metadata, MetadataAccount, eager!(MetadataAccountEager, parent), [
    ("pubkeys", Opt(32), 16, Some(|a, i| optb(a.get_child_pubkey(i))), Some(|a, i, b| a.set_child_pubkey(i, opt!(b)))),
    ("next_metadata_ptr", B(4), 1, Some(|a, _| e(&a.get_next_metadata_ptr())), Some(|a, _, b| a.set_next_metadata_ptr(&d(b)))),
]);
account!(storage, StorageAccount, eager!(StorageAccountEager, parent), [
    ("pubkeys", Opt(32), 25, Some(|a, i| optb(a.get_child_pubkey(i))), Some(|a, i, b| a.set_child_pubkey(i, opt!(b)))),
    ("next_commitment_ptr", B(4), 1, Some(|a, _| e(&a.get_next_commitment_ptr())), Some(|a, _, b| a.set_next_commitment_ptr(&d(b)))),
    ("trees_count", B(4), 1, Some(|a, _| e(&a.get_trees_count())), Some(|a, _, b| a.set_trees_count(&d(b)))),
    ("archived_count", B(4), 1, None, None),
    ("active_mt_root_history", B(32), 100, Some(|a, i| e(&a.get_active_mt_root_history(i))), Some(|a, i, b| a.set_active_mt_root_history(i, &d(b)))),
    ("mt_roots_count", B(4), 1, Some(|a, _| e(&a.get_mt_roots_count())), Some(|a, _, b| a.set_mt_roots_count(&d(b)))),
]);
account!(nullifier, NullifierAccount, eager!(NullifierAccountEager, parent), [
    ("pubkeys", Opt(32), 16, Some(|a, i| optb(a.get_child_pubkey(i))), Some(|a, i, b| a.set_child_pubkey(i, opt!(b)))),
    ("root", B(32), 1, Some(|a, _| e(&a.get_root())), Some(|a, _, b| a.set_root(&d(b)))),
    ("nullifier_hash_count", B(4), 1, Some(|a, _| e(&a.get_nullifier_hash_count())), Some(|a, _, b| a.set_nullifier_hash_count(&d(b)))),
    ("max_values", Opt(32), 16, Some(|a, i| e(&a.get_max_values(i))), Some(|a, i, b| a.set_max_values(i, &d(b)))),
    ("moved_values_count", B(1), 1, None, None),
    ("moved_values", B(32), 4, None, None),
    ("moved_values_target", B(1), 4, None, None),
]);
account!(vkey, VKeyAccount, eager!(VKeyAccountEager, parent), [
    ("pubkeys", Opt(32), 2, Some(|a, i| optb(a.get_child_pubkey(i))), Some(|a, i, b| a.set_child_pubkey(i, opt!(b)))),
    ("public_inputs_count", B(4), 1, Some(|a, _| e(&a.get_public_inputs_count())), Some(|a, _, b| a.set_public_inputs_count(&d(b)))),
    ("authority", Opt(32), 1, Some(|a, _| e(&a.get_authority())), Some(|a, _, b| a.set_authority(&d(b)))),
    ("is_frozen", Bool, 1, Some(|a, _| e(&a.get_is_frozen())), Some(|a, _, b| a.set_is_frozen(&d(b)))),
    ("version", B(4), 1, Some(|a, _| e(&a.get_version())), Some(|a, _, b| a.set_version(&d(b)))),
]);
account!(verification, VerificationAccount, eager!(VerificationAccountEager), [
    ("instruction", B(4), 1, Some(|a, _| e(&ComputationAccount::instruction(a))), None),
    ("round", B(4), 1, Some(|a, _| e(&ComputationAccount::round(a))), None),
    ("prepare_inputs_instructions_count", B(4), 1, Some(|a, _| e(&a.get_prepare_inputs_instructions_count())), Some(|a, _, b| a.set_prepare_inputs_instructions_count(&d(b)))),
    ("prepare_inputs_instructions", B(2), 140, Some(|a, i| e(&a.get_prepare_inputs_instructions(i))), Some(|a, i, b| a.set_prepare_inputs_instructions(i, &d(b)))),
    ("vkey_id", B(4), 1, Some(|a, _| e(&a.get_vkey_id())), Some(|a, _, b| a.set_vkey_id(&d(b)))),
    ("step", Enum(3), 1, Some(|a, _| e(&a.get_step())), Some(|a, _, b| a.set_step(&d(b)))),
    ("state", Enum(6), 1, Some(|a, _| e(&a.get_state())), Some(|a, _, b| a.set_state(&d(b)))),
    ("public_input", B(32), 14, Some(|a, i| e(&a.get_public_input(i))), Some(|a, i, b| a.set_public_input(i, &d(b)))),
    ("a", LazyG(64), 1, Some(|a, _| e(&a.a.get())), Some(|a, _, b| a.a.set(d(b)))),
    ("b", LazyG(128), 1, Some(|a, _| e(&a.b.get())), Some(|a, _, b| a.b.set(d(b)))),
    ("c", LazyG(64), 1, Some(|a, _| e(&a.c.get())), Some(|a, _, b| a.c.set(d(b)))),
    ("prepared_inputs", LazyG(64), 1, None, None),
    ("r", LazyB(192), 1, None, None),
    ("f", LazyB(384), 1, None, None),
    ("alt_b", LazyG(128), 1, None, None),
    ("coeff_index", B(1), 1, None, None),
    ("ram_fq", LazyB(32 * 6), 1, None, None),
    ("ram_fq2", LazyB(64 * 10), 1, None, None),
    ("ram_fq6", LazyB(192 * 3), 1, None, None),
    ("ram_fq12", LazyB(384 * 7), 1, None, None),
    ("is_verified", OptBool, 1, Some(|a, _| e(&a.get_is_verified())), Some(|a, _, b| a.set_is_verified(&d(b)))),
    ("other_data", Data, 1, Some(|a, _| e(&a.get_other_data())), Some(|a, _, b| a.set_other_data(&d(b)))),
    ("request", Request, 1, Some(|a, _| e(&a.get_request())), Some(|a, _, b| a.set_request(&d(b)))),
    ("tree_indices", B(4), 2, Some(|a, i| e(&a.get_tree_indices(i))), Some(|a, i, b| a.set_tree_indices(i, &d(b)))),
]);

fn accounts(s: &mut Src) -> Res {
    const T: [fn(&mut Src) -> Res; 13] = [verification, nullifier, storage, metadata, vkey, hashing, base_hashing, governor, fee_account, pool, fee_collector, duplicate, verification];
    T[s.weighted(&[6, 3, 3, 2, 3, 3, 3, 2, 1, 1, 1, 1, 1])](s)
}

/// `setup` stores a request completely and nothing else
fn verification_setup(s: &mut Src) -> Res {
    let mut data = vec![0u8; VerificationAccount::SIZE];
    // an account that has been used before
    if s.bool() { let x = s.u8(); for (i, b) in data.iter_mut().enumerate() { *b = x.wrapping_mul(i as u8); } }
    let request = client::request(s);
    let inputs: Vec<RawU256> = (0..s.usize(0, 14)).map(|_| client::raw(s)).collect();
    let instructions: Vec<u32> = (0..s.pick(&[0usize, 1, 2, 7, 33, 139, 140])).map(|_| s.range(0, 65_535) as u32).collect();
    let (vkey, trees, skip, signer) = (s.u64_edge() as u32, [s.u64_edge() as u32, s.u64_edge() as u32], s.bool(), client::raw(s));
    let before = data.clone();
    let mut a = VerificationAccount::new(&mut data).unwrap();
    let r = guard(|| a.setup(signer, skip, &inputs, &instructions, vkey, request.clone(), trees).is_ok());
    check!(r == Ok(true), "setup", "a request is refused");
    check!(a.get_request() == request, "request", "the request is stored as {:?} instead of {:?}", a.get_request(), request);
    for (i, p) in inputs.iter().enumerate() {
        check_eq!(a.get_public_input(i), *p, "public-input", "public input {i}");
        check_eq!(a.load_raw_public_input(i), p.skip_mr(), "public-input", "raw public input {i}");
    }
    check_eq!(a.get_prepare_inputs_instructions_count() as usize, instructions.len(), "instructions", "number of instructions");
    for (i, x) in instructions.iter().enumerate() { check_eq!(a.get_prepare_inputs_instructions(i) as u32, *x, "instructions", "instruction {i}"); }
    check_eq!((a.get_vkey_id(), a.all_tree_indices()), (vkey, trees), "setup", "vkey and trees");
    let o = a.get_other_data();
    check!(o == VerificationAccountData { fee_payer: signer, skip_nullifier_pda: skip, ..Default::default() }, "other", "other data: {o:?}");
    drop(a);
    // fields that do not belong to the request
    let n = 2 + 4 + 4 + 4 + 280 + 4;
    check!(data[..10] == before[..10] && data[n..n + 2] == before[n..n + 2], "untouched", "the setup changes the progress of the computation");
    let (from, to) = (n + 2 + 448, VerificationAccount::SIZE - 8 - K::Request.size() - K::Data.size());
    check!(data[from..to] == before[from..to], "untouched", "the setup changes values of the computation");
    s.label(if before[5] == 0 { "fresh" } else { "reused" });
    s.nontrivial(fnv(&client::wire::request(&request)) ^ instructions.len() as u64 ^ vkey as u64);
    Ok(())
}

/// Runs a history on a byte-backed array of values and compares it with an array
fn ram<N: Copy + PartialEq + std::fmt::Debug, const SIZE: usize>(s: &mut Src, size: usize) -> Res where Wrap<N>: BorshSerDeSized {
    check_eq!(<LazyRAM<N, SIZE> as SizedType>::SIZE, size * SIZE, "size", "size of a RAM");
    let valid = |mut b: Vec<u8>| { if size % 32 == 1 { for i in (size - 1..b.len()).step_by(size) { b[i] &= 1; } } b };
    let v = |s: &mut Src| { let b = match s.below(6) { 0 => vec![0; size], 1 => vec![255; size], _ => s.vec_u8(size) }; d::<Wrap<N>>(&valid(b)).0 };
    let mut source = valid(s.vec_u8(size * SIZE));
    let mut values: Vec<N> = (0..SIZE).map(|i| d::<Wrap<N>>(&source[i * size..]).0).collect();
    let mut stored = source.clone();
    let mut writes = 0;
    for _ in 0..s.usize(1, 3) {
        let mut ram = LazyRAM::<N, SIZE>::new(&mut source);
        let mut frames: Vec<usize> = vec![];
        let mut frame = 0;
        for _ in 0..s.usize(1, 25) {
            match s.below(8) {
                0 if frame + 1 < SIZE => { let f = s.usize(1, SIZE - 1 - frame); ram.inc_frame(f); frames.push(f); frame += f; }
                1 if !frames.is_empty() => { let f = frames.pop().unwrap(); ram.dec_frame(f); frame -= f; }
                2 => {
                    ram.serialize().unwrap();
                    for (i, v) in values.iter().enumerate() { let mut b = &mut stored[i * size..(i + 1) * size]; Wrap(*v).serialize(&mut b).unwrap(); }
                }
                3..=5 => {
                    let (i, x) = (s.below(SIZE - frame), v(s));
                    s.log(|| format!("write {} (frame {frame})", frame + i));
                    ram.write(x, i);
                    values[frame + i] = x;
                    writes += 1;
                }
                _ => {
                    let i = s.below(SIZE - frame);
                    check!(ram.read(i) == values[frame + i], "read", "value {} (frame {frame}) is {:?} instead of {:?}", frame + i, ram.read(i), values[frame + i]);
                }
            }
            check_eq!(ram.get_frame(), frame, "frame", "frame");
        }
        if s.bool() {
            ram.serialize().unwrap();
            drop(ram);
            for (i, v) in values.iter().enumerate() { let mut b = &mut stored[i * size..(i + 1) * size]; Wrap(*v).serialize(&mut b).unwrap(); }
        } else {
            // without serialization nothing is kept
            drop(ram);
            values = (0..SIZE).map(|i| d::<Wrap<N>>(&stored[i * size..]).0).collect();
        }
        check!(source == stored, "ram-bytes", "the stored bytes differ from the values");
    }
    if writes > 0 { s.nontrivial(fnv(&source)); }
    Ok(())
}

fn rams(s: &mut Src) -> Res {
    match s.below(5) { 0 => ram::<Fq, 6>(s, 32), 1 => ram::<Fq2, 10>(s, 64), 2 => ram::<Fq6, 3>(s, 192), 3 => ram::<Fq12, 7>(s, 384), _ => ram::<G2A_, 2>(s, 129) }
}
type G2A_ = G2A;

/// Lazy fields and arrays
fn lazies(s: &mut Src) -> Res {
    const N: usize = 5;
    let mut data = s.vec_u8(32 * N);
    let mut model: Vec<[u8; 32]> = (0..N).map(|i| data[32 * i..32 * i + 32].try_into().unwrap()).collect();
    let mut stored = data.clone();
    let mut hash = fnv(&data);
    for _ in 0..s.usize(1, 3) {
        let kind = s.below(3);
        match kind {
            0 => {
                let mut a = LazyArray::<[u8; 32], N>::new(&mut data);
                let mut dirty = vec![false; N];
                for _ in 0..s.usize(1, 12) {
                    let i = s.below(N);
                    match s.below(4) {
                        0 => check_eq!(a.get(i), model[i], "lazy-array", "value {i}"),
                        1 => { let v = s.bytes(); a.set(i, v); model[i] = v; dirty[i] = true; for j in 0..N { if dirty[j] { stored[32 * j..32 * j + 32].copy_from_slice(&model[j]); } } hash ^= fnv(&v); }
                        2 => { let v = s.bytes(); a.set_no_serialization(i, v); model[i] = v; dirty[i] = true; }
                        _ => { a.serialize(); for j in 0..N { if dirty[j] { stored[32 * j..32 * j + 32].copy_from_slice(&model[j]); } } }
                    }
                }
                drop(a);
            }
            1 => {
                let i = s.below(N);
                let mut a = Lazy::<[u8; 32]>::new(&mut data[32 * i..32 * i + 32]);
                let mut dirty = false;
                for _ in 0..s.usize(1, 8) {
                    match s.below(4) {
                        0 => check_eq!(a.get(), model[i], "lazy", "value"),
                        1 => { let v = s.bytes(); a.set(v); model[i] = v; dirty = true; stored[32 * i..32 * i + 32].copy_from_slice(&v); hash ^= fnv(&v); }
                        2 => { let v = s.bytes(); a.set_no_serialization(v); model[i] = v; dirty = true; }
                        _ => { a.serialize(); if dirty { stored[32 * i..32 * i + 32].copy_from_slice(&model[i]); } }
                    }
                }
                drop(a);
            }
            _ => {
                let mut a = JITArray::<[u8; 32], N>::new(&mut data);
                for _ in 0..s.usize(1, 8) {
                    let i = s.below(N);
                    if s.bool() { let v = s.bytes(); a.set(i, &v); model[i] = v; stored[32 * i..32 * i + 32].copy_from_slice(&v); hash ^= fnv(&v); }
                    check_eq!(a.get(i), model[i], "jit", "value {i}");
                }
                drop(a);
            }
        }
        check!(data == stored, "lazy-bytes", "the stored bytes differ from the values (kind {kind})");
        for (i, v) in model.iter_mut().enumerate() { v.copy_from_slice(&stored[32 * i..32 * i + 32]); }
    }
    s.nontrivial(hash);
    Ok(())
}

/// Addresses: one for each account type, offset and key, and only the right one with the right bump is verified
fn addresses(s: &mut Src) -> Res {
    macro_rules! all { ($m:ident) => { vec![$m!(GovernorAccount, "Governor"), $m!(PoolAccount, "Pool"), $m!(FeeCollectorAccount, "FeeCollector"), $m!(FeeAccount, "Fee"), $m!(BaseCommitmentHashingAccount, "BaseCommitmentHashing"), $m!(CommitmentHashingAccount, "CommitmentHashing"), $m!(CommitmentQueueAccount, "CommitmentQueue"), $m!(CommitmentBufferAccount, "CommitmentBuffer"), $m!(BaseCommitmentBufferAccount, "BaseCommitmentBuffer"), $m!(MetadataAccount, "Metadata"), $m!(MetadataQueueAccount, "MetadataQueue"), $m!(StorageAccount, "Storage"), $m!(NullifierAccount, "Nullifier"), $m!(ArchivedNullifierAccount, "ArchivedNullifier"), $m!(NullifierDuplicateAccount, "NullifierDuplicate"), $m!(VerificationAccount, "Verification"), $m!(VKeyAccount, "VKey")] } }
    type Find = fn(Option<Pubkey>, Option<u32>) -> (Pubkey, u8);
    type Verify = fn(&AccountInfo, Option<Pubkey>, Option<u32>) -> bool;
    macro_rules! fns { ($t:ident, $seed:literal) => { ($seed,
        (|k, o| <$t as PDAAccount>::find_with_pubkey_optional(k, o)) as Find,
        (|a, k, o| match k { None => <$t as PDAAccount>::verify_account(a, o).is_ok(), Some(k) => <$t as PDAAccount>::verify_account_with_pubkey(a, k, o).is_ok() }) as Verify) } }
    let types: Vec<(&str, Find, Verify)> = all!(fns);
    let (seed, find, verify) = s.pick(&types);
    let key = s.bool().then(|| Pubkey::new_from_array(s.bytes()));
    let offset = s.chance(3, 4).then(|| if s.bool() { s.range(0, 3) as u32 } else { s.u64_edge() as u32 });
    let mut seeds: Vec<Vec<u8>> = vec![seed.as_bytes().to_vec()];
    if let Some(k) = key { seeds.push(k.to_bytes().to_vec()); }
    if let Some(o) = offset { seeds.push(o.to_le_bytes().to_vec()); }
    let expected = Pubkey::find_program_address(&seeds.iter().map(|x| &x[..]).collect::<Vec<_>>(), &elusiv::id());
    check_eq!(find(key, offset), expected, "address", "{seed} {key:?} {offset:?}");
    // an account is verified iff it is at this address
    let (mut at, mut bump) = expected;
    let fault = s.below(5);
    match fault {
        0 | 1 => {}
        2 => at = Pubkey::new_from_array(s.bytes()),
        3 => { let (other, of, _) = s.pick(&types); at = of(key, offset).0; if other == seed { at = find(key, Some(offset.unwrap_or(0).wrapping_add(1))).0; } }
        _ => bump = s.u8(),
    }
    let mut data = vec![bump, 0, 0];
    let (owner, mut l) = (elusiv::id(), 1);
    let info = AccountInfo::new(&at, false, false, &mut l, &mut data, &owner, false, 0);
    let expect = at == expected.0 && (bump == expected.1 || (key.is_none() && offset.is_none()));
    check_eq!(guard(|| verify(&info, key, offset)), Ok(expect), "verify", "{seed} {key:?} {offset:?}: verification of {at} with bump {bump} (address {}, bump {})", expected.0, expected.1);
    s.label(["valid", "valid", "foreign", "other type", "bump"][fault]);
    s.nontrivial(fnv(&expected.0.to_bytes()) ^ fault as u64);
    Ok(())
}

/// Any in-order part of an account's children that directly follows it is recognized; the accounts after them are left
fn children(s: &mut Src) -> Res {
    fn run(s: &mut Src, count: usize, data: &mut [u8], find: fn(&mut [u8], bool, &[AccountInfo]) -> Result<(Vec<Option<Pubkey>>, usize), ()>) -> Res {
        let set: Vec<Option<Pubkey>> = (0..count).map(|i| if s.chance(5, 6) { let mut b = [3u8; 32]; b[0] = i as u8; Some(Pubkey::new_from_array(b)) } else { None }).collect();
        for (i, k) in set.iter().enumerate() { data[2 + 33 * i..35 + 33 * i].copy_from_slice(&optb(*k)); }
        let p = s.range(0, 4);
        let passed: Vec<usize> = (0..count).filter(|i| set[*i].is_some() && s.range(0, 3) < p).collect();
        let mut keys: Vec<Pubkey> = passed.iter().map(|i| set[*i].unwrap()).collect();
        let after = s.below(4);
        for i in 0..after { let mut b = [9u8; 32]; b[0] = i as u8; keys.push(Pubkey::new_from_array(b)); }
        let fault = if passed.is_empty() { 0 } else { s.below(6) };
        let bad = if passed.is_empty() { 0 } else { s.below(passed.len()) };
        let writable = s.bool();
        let (own, foreign) = (elusiv::id(), Pubkey::new_from_array([4; 32]));
        let mut ls = vec![1u64; keys.len()];
        let mut ds = vec![vec![0u8; 2]; keys.len()];
        let infos: Vec<AccountInfo> = keys.iter().zip(ls.iter_mut().zip(ds.iter_mut())).enumerate().map(|(i, (k, (l, d)))| {
            let owner = if (fault == 4 && i == bad) || i >= passed.len() { &foreign } else { &own };
            AccountInfo::new(k, false, !(fault == 5 && i == bad), l, &mut d[..], owner, false, 0)
        }).collect();
        let r = guard(|| find(data, writable, &infos));
        let Ok(r) = r else { return fail("children-panic", "looking for child accounts panics") };
        let ok = fault != 4 && !(fault == 5 && writable);
        check_eq!(r.is_ok(), ok, "children", "{} of {count} children, fault {fault}, writable {writable}", passed.len());
        if let Ok((found, rest)) = r {
            let expected: Vec<Option<Pubkey>> = (0..count).map(|i| passed.contains(&i).then(|| set[i].unwrap())).collect();
            check_eq!(found, expected, "children", "recognized children");
            check_eq!(rest, after, "children-rest", "accounts left after {} children", passed.len());
        }
        s.nontrivial(fnv(&passed.iter().map(|x| *x as u8).collect::<Vec<_>>()) ^ fault as u64 ^ after as u64);
        Ok(())
    }
    macro_rules! finder { ($t:ident) => { |data, writable, infos| {
        let a = $t::new(data).unwrap();
        let mut it = infos.iter();
        let r = <$t as ParentAccount>::find_child_accounts(&a, &elusiv::id(), writable, &mut it).map_err(|_| ())?;
        Ok((r.into_iter().map(|x| x.map(|x| *x.key)).collect(), it.count()))
    } } }
    match s.below(4) {
        0 => run(s, 25, &mut vec![0; StorageAccount::SIZE], finder!(StorageAccount)),
        1 => run(s, 16, &mut vec![0; NullifierAccount::SIZE], finder!(NullifierAccount)),
        2 => run(s, 16, &mut vec![0; MetadataAccount::SIZE], finder!(MetadataAccount)),
        _ => run(s, 2, &mut vec![0; VKeyAccount::SIZE], finder!(VKeyAccount)),
    }
}

fn main() {
    Suite::new("P21", "a distinct history that stores at least one value (accounts without settable fields, addresses and child lists: a distinct input)")
        .assume("fields without public accessors are observed through the client's eager representation")
        .test("accounts", 100_000, 4_000_000, accounts)
        .test("verification-setup", 30_000, 1_000_000, verification_setup)
        .test("ram", 50_000, 2_000_000, rams)
        .test("lazy", 100_000, 3_000_000, lazies)
        .test("addresses", 30_000, 600_000, addresses)
        .test("children", 150_000, 4_000_000, children)
        .main();
}
