//! Property P22: values, requests and instructions have one fixed wire format that decodes to the same value, takes exactly the declared number of
//! bytes and represents the intended integer; conversions and byte helpers are exact or refuse.
use ark_bn254::{Fq, Fq12, Fq2, Fq6, Fr, G1Affine, G2Affine};
use ark_ff::{BigInteger256, Field, PrimeField};
use borsh::{BorshDeserialize, BorshSerialize};
use client::wire;
use elusiv::bytes::*;
use elusiv::fields::*;
use elusiv::instruction::ElusivInstruction as Ix;
use elusiv::processor::*;
use elusiv::state::fee::ProgramFee;
use elusiv::state::proof::{NullifierDuplicateAccount, VerificationState};
use elusiv::types::*;
use pbt::*;
use solana_program::pubkey::Pubkey;

/// r and q as little endian bytes (from the definition of BN254)
const R: &str = "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001";
const Q: &str = "30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47";
fn le(h: &str) -> [u8; 32] { let mut b = [0; 32]; for i in 0..32 { b[31 - i] = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap(); } b }
fn cmp(a: &[u8; 32], b: &[u8; 32]) -> std::cmp::Ordering { a.iter().rev().cmp(b.iter().rev()) }
/// a ± d
fn shift(a: [u8; 32], d: i64) -> [u8; 32] {
    let mut o = a;
    let mut c = d as i128;
    for b in o.iter_mut() { let v = *b as i128 + (c & 0xff); *b = v as u8; c = (c >> 8) + (v >> 8); }
    o
}

/// 256 bit numbers around the interesting ones
fn num(s: &mut Src) -> [u8; 32] {
    match s.below(10) {
        0 => [0; 32],
        1 => [255; 32],
        2 | 3 => { let d = s.range(0, 600) as i64 - 300; shift(le(R), d) }
        4 => { let d = s.range(0, 4) as i64 - 2; shift(le(Q), d) }
        5 => { let mut b = [0; 32]; b[s.below(32)] = s.u8(); b }
        6 => { let mut b = [0; 32]; b[..8].copy_from_slice(&s.u64_edge().to_le_bytes()); b }
        7 => { let mut b = le(R); let i = s.below(32); b[i] = s.u8(); b }
        _ => s.bytes(),
    }
}
fn canonical(s: &mut Src, m: &str) -> [u8; 32] { let mut b = num(s); while cmp(&b, &le(m)).is_ge() { b[31] &= 0x1f; b[31] >>= 1; } b }
fn big(b: &[u8; 32]) -> BigInteger256 { let l = |i: usize| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()); BigInteger256([l(0), l(1), l(2), l(3)]) }
fn fr(b: &[u8; 32]) -> Fr { Fr::from_repr(big(b)).unwrap() }
/// 2^256 modulo the field (Montgomery factor)
fn two256<F: Field>() -> F { let mut x = F::one(); for _ in 0..256 { x.double_in_place(); } x }

/// Any stored bytes of a field type are read and written back unchanged, and take exactly SIZE bytes
fn fields(s: &mut Src) -> Res {
    fn one<T: BorshSerDeSized>(s: &mut Src, name: &str, size: usize, bool_at_end: bool) -> Res {
        let mut b = Vec::new();
        while b.len() < size { b.extend(num(s)); }
        b.truncate(size);
        if bool_at_end { b[size - 1] &= 1; }
        check_eq!(T::SIZE, size, "size", "SIZE of {name}");
        let tail = s.vec_u8(3);
        let mut all = b.clone();
        all.extend(&tail);
        let mut buf = &all[..];
        let v = match guard(|| { let mut x = buf; let v = T::deserialize(&mut x).map_err(|_| ())?; Ok::<_, ()>((v, x.len())) }) { Ok(Ok((v, rest))) => { buf = &buf[buf.len() - rest..]; v } _ => return fail("deserialize", format!("{name} cannot be read")) };
        check!(buf == &tail[..], "consumed", "{name}: {} bytes are left of {}", buf.len(), all.len());
        check!(v.try_to_vec().unwrap() == b, "round-trip", "{name}: {b:02x?} is written as {:02x?}", v.try_to_vec().unwrap());
        // too short
        let short = &b[..s.below(size)];
        check!(!matches!(guard(|| T::try_from_slice(short).is_ok()), Ok(true)), "short", "{name} is read from {} bytes", short.len());
        s.label(name);
        s.nontrivial(fnv(&b));
        Ok(())
    }
    match s.below(14) {
        0 => one::<Wrap<BigInteger256>>(s, "BigInteger256", 32, false),
        1 => one::<Wrap<Fr>>(s, "Fr", 32, false),
        2 => one::<Wrap<Fq>>(s, "Fq", 32, false),
        3 => one::<Wrap<Fq2>>(s, "Fq2", 64, false),
        4 => one::<Wrap<Fq6>>(s, "Fq6", 192, false),
        5 => one::<Wrap<Fq12>>(s, "Fq12", 384, false),
        6 => one::<G1A>(s, "G1A", 65, true),
        7 => one::<G2A>(s, "G2A", 129, true),
        8 => one::<Wrap<G1A>>(s, "Wrap<G1A>", 65, true),
        9 => one::<Wrap<G2A>>(s, "Wrap<G2A>", 129, true),
        10 => one::<G2HomProjective>(s, "G2HomProjective", 192, false),
        11 => one::<elusiv::commitment::poseidon_hash::BinarySpongeHashingState>(s, "BinarySpongeHashingState", 96, false),
        12 => one::<RawU256>(s, "RawU256", 32, false),
        _ => one::<OrdU256>(s, "OrdU256", 32, false),
    }
}

/// Field elements are stored as little endian Montgomery representations, component by component
fn components(s: &mut Src) -> Res {
    let xs: Vec<Fq> = (0..12).map(|_| Fq::from_repr(big(&canonical(s, Q))).unwrap()).collect();
    let enc = |v: &[Fq]| -> Vec<u8> { v.iter().flat_map(|x| { let m = (*x * two256::<Fq>()).into_repr(); m.0.iter().flat_map(|l| l.to_le_bytes()).collect::<Vec<u8>>() }).collect() };
    let f2 = |i: usize| Fq2::new(xs[i], xs[i + 1]);
    let f6 = |i: usize| Fq6::new(f2(i), f2(i + 2), f2(i + 4));
    let inf = s.bool();
    let t: Vec<(&str, Vec<u8>, Vec<u8>)> = vec![
        ("Fq", Wrap(xs[0]).try_to_vec().unwrap(), enc(&xs[..1])),
        ("Fq2", Wrap(f2(0)).try_to_vec().unwrap(), enc(&xs[..2])),
        ("Fq6", Wrap(f6(0)).try_to_vec().unwrap(), enc(&xs[..6])),
        ("Fq12", Wrap(Fq12::new(f6(0), f6(6))).try_to_vec().unwrap(), enc(&xs)),
        ("G1A", G1A(G1Affine::new(xs[0], xs[1], inf)).try_to_vec().unwrap(), [enc(&xs[..2]), vec![inf as u8]].concat()),
        ("G2A", G2A(G2Affine::new(f2(0), f2(2), inf)).try_to_vec().unwrap(), [enc(&xs[..4]), vec![inf as u8]].concat()),
        ("G2HomProjective", G2HomProjective { x: f2(0), y: f2(2), z: f2(4) }.try_to_vec().unwrap(), enc(&xs[..6])),
    ];
    for (n, got, expected) in &t { check!(got == expected, "components", "{n} is written as {got:02x?} instead of {expected:02x?}"); }
    let g = G2A::try_from_slice(&t[5].2).unwrap();
    check!(g.0.x == f2(0) && g.0.y == f2(2) && g.0.infinity == inf, "components", "G2A is read differently");
    let h = G2HomProjective::try_from_slice(&t[6].2).unwrap();
    check!(h.x == f2(0) && h.y == f2(2) && h.z == f2(4), "components", "G2HomProjective is read differently");
    let a = G1A::try_from_slice(&t[4].2).unwrap();
    check!(a.0.x == xs[0] && a.0.y == xs[1] && a.0.infinity == inf, "components", "G1A is read differently");
    check!(<Wrap<Fq12>>::try_from_slice(&t[3].2).unwrap().0 == Fq12::new(f6(0), f6(6)), "components", "Fq12 is read differently");
    let raw = [&t[4].1[..], &t[5].1, &t[4].1].concat();
    let proof = RawProof::try_from_slice(&raw).ok().and_then(|p| Proof::try_from(p).ok());
    check!(proof == Some(Proof { a, b: g, c: a }), "raw-proof", "raw proof {raw:02x?} is read as {proof:?}");
    check_eq!((RawProof::SIZE, Proof::SIZE), (raw.len(), raw.len()), "raw-proof", "size of a proof");
    let p = affine_into_projective(&a.0);
    check!(p.x == xs[0] && p.y == xs[1] && p.z == Fq::from(1u64), "projective", "affine point as projective point");
    s.nontrivial(fnv(&t[3].1));
    Ok(())
}

/// Conversions between integers, bytes and scalars keep the value
fn scalars(s: &mut Src) -> Res {
    let b = num(s);
    check_eq!(is_element_scalar_field(big(&b)), cmp(&b, &le(R)).is_lt(), "is-element", "{b:02x?} is an element of the scalar field");
    check_eq!(u256_to_le_limbs(b), big(&b).0, "limbs", "limbs of {b:02x?}");
    check_eq!(u256_to_big_uint(&b), big(&b), "limbs", "{b:02x?}");
    check_eq!(big_uint_to_u256(&big(&b)), b, "limbs", "bytes of {b:02x?}");
    let i = s.below(25);
    check_eq!(u64_limb(&b, i), (0..8).map(|j| (b[i + j] as u64) << (8 * j)).sum::<u64>(), "limb", "limb at {i} of {b:02x?}");
    let c = num(s);
    check_eq!(OrdU256(b).cmp(&OrdU256(c)), cmp(&b, &c), "order", "{b:02x?} <=> {c:02x?}");
    check_eq!(OrdU256(b).partial_cmp(&OrdU256(c)), Some(cmp(&b, &c)), "order", "{b:02x?} <=> {c:02x?}");
    let [l, h] = split_u256_into_limbs(b);
    check!(l[..16] == b[..16] && h[..16] == b[16..] && l[16..] == [0; 16] && h[16..] == [0; 16], "split", "{b:02x?} is split into {l:02x?} {h:02x?}");
    let v = canonical(s, R);
    let x = fr(&v);
    check_eq!(fr_to_u256_le_repr(&x), v, "scalar", "value of a scalar");
    // the stored form is the value times 2^256
    let m = fr_to_u256_le(&x);
    check_eq!(fr(&m), x * two256::<Fr>(), "montgomery", "stored form of {v:02x?}");
    check_eq!(u256_to_fr_skip_mr(&m), x, "montgomery", "scalar stored as {m:02x?}");
    check_eq!(RawU256::new(v).reduce(), m, "reduce", "reduction of {v:02x?}");
    check_eq!((RawU256::new(v).skip_mr(), *RawU256::new(v).skip_mr_ref()), (v, v), "reduce", "{v:02x?} without reduction");
    if cmp(&b, &le(R)).is_ge() { check!(guard(|| RawU256::new(b).reduce()).is_err(), "reduce", "{b:02x?} is reduced although it is not in the field"); }
    let n = s.u64_edge();
    let mut nb = [0u8; 32];
    nb[..8].copy_from_slice(&n.to_le_bytes());
    check_eq!(u64_to_scalar(n), fr(&nb), "u64", "scalar {n}");
    check_eq!(u64_to_scalar_skip_mr(n) * two256::<Fr>(), fr(&nb), "u64", "scalar stored as {n}");
    check_eq!(u64_to_u256_skip_mr(n), nb, "u64", "bytes of {n}");
    check_eq!(u64_to_u256(n), fr_to_u256_le(&fr(&nb)), "u64", "stored form of {n}");
    s.nontrivial(fnv(&b) ^ fnv(&v) ^ n);
    Ok(())
}

/// The byte helpers agree with their naive definitions
fn helpers(s: &mut Src) -> Res {
    fn search<T: BorshSerDeSized, const N: usize>(s: &mut Src, make: fn([u8; N]) -> T) -> Res {
        let len = s.usize(0, 12);
        let alphabet = s.pick(&[2u8, 3, 255]);
        let mut gen = |s: &mut Src| { let mut b = [0u8; N]; for x in b.iter_mut() { *x = s.range(0, alphabet as u64) as u8; } if s.bool() { let y = b[0]; b = [y; N]; } b };
        let values: Vec<[u8; N]> = (0..len).map(|_| gen(s)).collect();
        let mut data: Vec<u8> = values.concat();
        data.extend(s.vec_u8(if N > 1 { N / 2 } else { 0 }));
        let needle = if len > 0 && s.bool() { s.pick(&values) } else { gen(s) };
        let n = if s.bool() { len } else { s.usize(0, len) };
        let v = make(needle);
        let expected = values[..n].iter().position(|x| *x == needle);
        check_eq!(find(&v, &data, n), expected, "find", "find {needle:?} in the first {n} of {values:?}");
        check_eq!(contains(&v, &data), values.contains(&needle), "contains", "contains {needle:?}: {values:?}");
        s.label(if expected.is_some() { "found" } else { "not found" });
        s.nontrivial(fnv(&data) ^ fnv(&needle));
        Ok(())
    }
    match s.below(5) { 0 => search::<u8, 1>(s, |b| b[0])?, 1 => search::<u16, 2>(s, u16::from_le_bytes)?, 2 => search::<u64, 8>(s, u64::from_le_bytes)?, 3 => search::<U256, 32>(s, |b| b)?, _ => search::<[u8; 17], 17>(s, |b| b)? }
    let mut z = vec![0u8; s.usize(0, 70)];
    match s.below(4) {
        0 => (),
        1 => if !z.is_empty() { let i = s.below(z.len()); z[i] = s.u8(); },
        2 => for x in z.iter_mut() { if s.below(4) == 0 { *x = s.u8(); } },
        // Words that cancel each other: equal, complementary or opposite numbers of each width and byte order
        _ => {
            let w = s.pick(&[1usize, 2, 4, 8, 16, 32]);
            let le = s.bool();
            z.resize(w * s.usize(1, 8) + if s.below(4) == 0 { s.below(w) } else { 0 }, 0);
            let mut word = s.vec_u8(w);
            if s.bool() { let edge = s.pick(&[0x80u8, 0xff, 1]); word = vec![if edge == 0xff { 0xff } else { 0 }; w]; word[w - 1] = edge; }
            let mut opposite: Vec<u8> = word.iter().map(|x| !x).collect();
            for x in opposite.iter_mut() { *x = x.wrapping_add(1); if *x != 0 { break } }
            let other = match s.below(3) { 0 => word.clone(), 1 => word.iter().map(|x| !x).collect(), _ => opposite };
            for (i, c) in z.chunks_mut(w).enumerate() {
                let mut v = match (s.below(3), i) { (_, 0) | (0, _) => word.clone(), (1, _) => other.clone(), _ => vec![0; w] };
                if !le { v.reverse(); }
                let n = c.len();
                c.copy_from_slice(&v[..n]);
            }
        }
    }
    check_eq!(is_zero(&z), z.iter().all(|x| *x == 0), "is-zero", "{z:?} is zero");
    let (a, b) = (s.u64_edge() >> 1, (s.u64_edge() >> 1).max(1));
    check_eq!(div_ceiling_u64(a, b) as u128, (a as u128 + b as u128 - 1) / b as u128, "div-ceiling", "{a} / {b}");
    check_eq!(div_ceiling_usize(a as usize, b as usize) as u64, div_ceiling_u64(a, b), "div-ceiling", "{a} / {b}");
    let (c, d) = ((a as u32) >> 1, ((b as u32) >> 1).max(1));
    check_eq!(div_ceiling_u32(c, d) as u64, (c as u64 + d as u64 - 1) / d as u64, "div-ceiling", "{c} / {d}");
    check!(guard(|| div_ceiling_u64(a, 0)).is_err() && guard(|| div_ceiling_u32(c, 0)).is_err(), "div-ceiling", "division of {a} by zero");
    check_eq!(max(a as usize, b as usize), (a as usize).max(b as usize), "max", "max({a}, {b})");
    // downcasts
    let n = match s.below(4) { 0 => s.u64_edge(), 1 => u32::MAX as u64 + s.range(0, 4) - 2, 2 => u16::MAX as u64 + s.range(0, 4) - 2, _ => u8::MAX as u64 + s.range(0, 4) - 2 };
    let exp = |m: u64| if n <= m { Some(n) } else { None };
    check_eq!(guard(|| u64_as_u32_safe(n)).ok().map(|x| x as u64), exp(u32::MAX as u64), "downcast", "{n} as u32");
    check_eq!(guard(|| u64_as_usize_safe(n)).ok().map(|x| x as u64), exp(u32::MAX as u64), "downcast", "{n} as usize");
    check_eq!(guard(|| usize_as_u32_safe(n as usize)).ok().map(|x| x as u64), exp(u32::MAX as u64), "downcast", "{n} as u32");
    check_eq!(guard(|| usize_as_u16_safe(n as usize)).ok().map(|x| x as u64), exp(u16::MAX as u64), "downcast", "{n} as u16");
    check_eq!(guard(|| usize_as_u8_safe(n as usize)).ok().map(|x| x as u64), exp(u8::MAX as u64), "downcast", "{n} as u8");
    let v = s.vec_u8(20);
    check!(slice_to_array::<u8, 17>(&v)[..] == v[..17], "array", "slice_to_array");
    check!(guard(|| slice_to_array::<u8, 21>(&v)).is_err(), "array", "slice_to_array of a slice that is too short");
    // options
    let o: Option<[u8; 17]> = s.bool().then(|| s.bytes());
    let e: ElusivOption<[u8; 17]> = o.into();
    let enc = match o { None => vec![0; 18], Some(x) => [&[1u8][..], &x[..]].concat() };
    check_eq!(e.try_to_vec().unwrap(), enc, "option", "{o:?} is written as");
    check_eq!(<ElusivOption<[u8; 17]>>::SIZE, 18, "option", "size of an option");
    check_eq!(e.option(), o, "option", "value of the option");
    let mut t = enc.clone();
    t.push(7);
    let mut buf = &t[..];
    check_eq!(<ElusivOption<[u8; 17]>>::deserialize(&mut buf).unwrap().option(), o, "option", "{enc:?} is read as");
    check_eq!(buf, &[7u8][..], "option", "rest after an option");
    let o2: Option<[u8; 17]> = if s.bool() { o } else { s.bool().then(|| s.bytes()) };
    check_eq!(ElusivOption::from(o) == ElusivOption::from(o2), o == o2, "option", "{o:?} == {o2:?}");
    Ok(())
}

/// Requests and all instructions: the wire format and its inverse
fn instructions(s: &mut Src) -> Res {
    let u = |s: &mut Src| s.u64_edge() as u32;
    let l = |x: u32| x.to_le_bytes().to_vec();
    let cat = |v: &[Vec<u8>]| v.concat();
    let tag = s.below(35);
    let vi = s.u8();
    let (x, y) = (u(s), u(s));
    let b = s.bool();
    let k = Pubkey::new_from_array(s.bytes());
    let (ix, index, data): (Ix, Option<u8>, Vec<u8>) = match tag {
        0 => { let r = client::base_request(s); let m = s.bytes::<17>(); let d = cat(&[l(x), vec![vi], wire::base_request(&r), m.to_vec()]); (Ix::StoreBaseCommitment { hash_account_index: x, hash_account_bump: vi, request: r, metadata: m }, Some(Ix::STORE_BASE_COMMITMENT_INDEX), d) }
        1 => (Ix::ComputeBaseCommitmentHash { hash_account_index: x }, Some(Ix::COMPUTE_BASE_COMMITMENT_HASH_INDEX), l(x)),
        2 => (Ix::FinalizeBaseCommitmentHash { hash_account_index: x, fee_version: y }, Some(Ix::FINALIZE_BASE_COMMITMENT_HASH_INDEX), cat(&[l(x), l(y)])),
        3 => (Ix::InitCommitmentHashSetup { insertion_can_fail: b }, Some(Ix::INIT_COMMITMENT_HASH_SETUP_INDEX), vec![b as u8]),
        4 => (Ix::InitCommitmentHash { insertion_can_fail: b }, Some(Ix::INIT_COMMITMENT_HASH_INDEX), vec![b as u8]),
        5 => (Ix::ComputeCommitmentHash { fee_version: x, nonce: y }, Some(Ix::COMPUTE_COMMITMENT_HASH_INDEX), cat(&[l(x), l(y)])),
        6 => (Ix::FinalizeCommitmentHash, Some(Ix::FINALIZE_COMMITMENT_HASH_INDEX), vec![]),
        7 => { let r = client::request(s); let d = cat(&[vec![vi], l(x), l(y), l(x ^ y), wire::request(&r), vec![b as u8]]); (Ix::InitVerification { verification_account_index: vi, vkey_id: x, tree_indices: [y, x ^ y], request: r, skip_nullifier_pda: b }, Some(Ix::INIT_VERIFICATION_INDEX), d) }
        8 => (Ix::InitVerificationTransferFee { verification_account_index: vi }, Some(Ix::INIT_VERIFICATION_TRANSFER_FEE_INDEX), vec![vi]),
        9 => {
            let mut p: Vec<u8> = s.vec_u8(65 + 129 + 65);
            for i in [64, 65 + 128, 65 + 129 + 64] { p[i] &= 1; }
            (Ix::InitVerificationProof { verification_account_index: vi, proof: Proof::try_from_slice(&p).unwrap() }, Some(Ix::INIT_VERIFICATION_PROOF_INDEX), cat(&[vec![vi], p]))
        }
        10 => (Ix::ComputeVerification { verification_account_index: vi, vkey_id: x }, Some(Ix::COMPUTE_VERIFICATION_INDEX), cat(&[vec![vi], l(x)])),
        11 => {
            let f = FinalizeSendData { total_amount: s.u64_edge(), token_id: y as u16, mt_index: x, commitment_index: y, iv: s.bytes(), encrypted_owner: s.bytes() };
            let d = cat(&[vec![vi], f.total_amount.to_le_bytes().to_vec(), (y as u16).to_le_bytes().to_vec(), l(x), l(y), f.iv.to_vec(), f.encrypted_owner.to_vec(), vec![b as u8]]);
            (Ix::FinalizeVerificationSend { verification_account_index: vi, data: f, uses_memo: b }, Some(Ix::FINALIZE_VERIFICATION_SEND_INDEX), d)
        }
        12 => (Ix::FinalizeVerificationInsertNullifier { verification_account_index: vi }, Some(Ix::FINALIZE_VERIFICATION_INSERT_NULLIFIER_INDEX), vec![vi]),
        13 => (Ix::FinalizeVerificationTransferLamports { verification_account_index: vi }, Some(Ix::FINALIZE_VERIFICATION_TRANSFER_LAMPORTS_INDEX), vec![vi]),
        14 => (Ix::FinalizeVerificationTransferToken { verification_account_index: vi }, Some(Ix::FINALIZE_VERIFICATION_TRANSFER_TOKEN_INDEX), vec![vi]),
        15 => { let a: ElusivOption<Pubkey> = if b { ElusivOption::Some(k) } else { ElusivOption::None }; (Ix::CreateVkeyAccount { vkey_id: x, public_inputs_count: y, deploy_authority: a }, Some(Ix::CREATE_VKEY_ACCOUNT_INDEX), cat(&[l(x), l(y), if b { cat(&[vec![1], k.to_bytes().to_vec()]) } else { vec![0; 33] }])) }
        16 => (Ix::CreateNewVkeyVersion { vkey_id: x }, Some(Ix::CREATE_NEW_VKEY_VERSION_INDEX), l(x)),
        17 => (Ix::UpdateVkeyVersion { vkey_id: x }, Some(Ix::UPDATE_VKEY_VERSION_INDEX), l(x)),
        19 => (Ix::FreezeVkey { vkey_id: x }, Some(Ix::FREEZE_VKEY_INDEX), l(x)),
        20 => (Ix::ChangeVkeyAuthority { vkey_id: x, authority: k }, Some(Ix::CHANGE_VKEY_AUTHORITY_INDEX), cat(&[l(x), k.to_bytes().to_vec()])),
        21 => (Ix::ResetActiveMerkleTree { active_mt_index: x }, Some(Ix::RESET_ACTIVE_MERKLE_TREE_INDEX), l(x)),
        22 => (Ix::ArchiveClosedMerkleTree { closed_mt_index: x }, Some(Ix::ARCHIVE_CLOSED_MERKLE_TREE_INDEX), l(x)),
        23 => (Ix::OpenSingleInstanceAccounts, Some(Ix::OPEN_SINGLE_INSTANCE_ACCOUNTS_INDEX), vec![]),
        24 => (Ix::OpenNullifierAccount { mt_index: x }, Some(Ix::OPEN_NULLIFIER_ACCOUNT_INDEX), l(x)),
        25 => (Ix::EnableStorageChildAccount { child_index: x }, Some(Ix::ENABLE_STORAGE_CHILD_ACCOUNT_INDEX), l(x)),
        26 => (Ix::EnableNullifierChildAccount { mt_index: x, child_index: y }, Some(Ix::ENABLE_NULLIFIER_CHILD_ACCOUNT_INDEX), cat(&[l(x), l(y)])),
        27 => (Ix::EnableMetadataChildAccount { child_index: x }, Some(Ix::ENABLE_METADATA_CHILD_ACCOUNT_INDEX), l(x)),
        28 => (Ix::SetupGovernorAccount, Some(Ix::SETUP_GOVERNOR_ACCOUNT_INDEX), vec![]),
        29 => (Ix::UpgradeGovernorState { fee_version: x, batching_rate: y }, Some(Ix::UPGRADE_GOVERNOR_STATE_INDEX), cat(&[l(x), l(y)])),
        30 => { let f = s.vec_u8(64); (Ix::InitNewFeeVersion { fee_version: x, program_fee: ProgramFee::try_from_slice(&f).unwrap() }, Some(Ix::INIT_NEW_FEE_VERSION_INDEX), cat(&[l(x), f])) }
        _ => (Ix::Nop, None, vec![]),
    };
    let bytes = ix.try_to_vec().unwrap();
    if let Some(index) = index { check_eq!(bytes[0], index, "index", "tag of instruction {tag} (constant)"); check_eq!(bytes[0] as usize, tag, "tag", "tag of instruction {tag}"); }
    check!(bytes[1..] == data[..], "wire", "instruction {tag} is written as {:02x?} instead of {:02x?}", &bytes[1..], data);
    let mut with_rest = bytes.clone();
    with_rest.extend([1, 2, 3]);
    let mut buf = &with_rest[..];
    let again = Ix::deserialize(&mut buf);
    check!(matches!(&again, Ok(i) if i.try_to_vec().unwrap() == bytes) && buf == &[1, 2, 3][..], "decode", "instruction {tag} is not read back");
    if !data.is_empty() {
        let n = s.usize(1, bytes.len() - 1);
        check!(!matches!(guard(|| Ix::try_from_slice(&bytes[..n]).is_ok()), Ok(true)), "truncated", "instruction {tag} is read from {n} of {} bytes", bytes.len());
    }
    let t = s.range(40, 255) as u8;
    check!(Ix::try_from_slice(&[&[t], &data[..]].concat()).is_err(), "unknown", "the unknown tag {t} is accepted");
    s.nontrivial(fnv(&bytes));
    Ok(())
}

fn requests(s: &mut Src) -> Res {
    let r = client::request(s);
    let w = wire::request(&r);
    check!(r.try_to_vec().unwrap() == w, "wire", "a request is written as {:02x?} instead of {w:02x?}", r.try_to_vec().unwrap());
    check!(ProofRequest::SIZE >= w.len(), "size", "a request takes {} of {} bytes", w.len(), ProofRequest::SIZE);
    let mut padded = w.clone();
    padded.extend(s.vec_u8(ProofRequest::SIZE - w.len()));
    check!(matches!(ProofRequest::deserialize_enum_full(&mut &padded[..]), Ok(x) if x == r), "padded", "a request followed by other bytes is read differently");
    check!(matches!(ProofRequest::deserialize_enum(&mut &padded[..]), Ok(x) if x == r), "padded", "a request followed by other bytes is read differently");
    check_eq!(r.variant_index(), w[0], "variant", "variant");
    let (j, vkey, amount) = match &r { ProofRequest::Send(p) => (&p.join_split, 0, p.join_split.amount), ProofRequest::Migrate(p) => (&p.join_split, 1, 0) };
    check_eq!((r.vkey_id(), r.fee_version(), r.proof_fee_amount()), (vkey, j.fee_version, amount), "accessors", "vkey, fee version and amount");
    check_eq!(j.total_amount(), j.amount + j.fee, "accessors", "total amount");
    check!(j.roots() == j.input_commitments.iter().map(|c| c.root).collect::<Vec<_>>() && j.nullifier_hashes() == j.input_commitments.iter().map(|c| c.nullifier_hash).collect::<Vec<_>>(), "accessors", "roots and nullifiers");
    // the address that reserves the nullifiers of a request depends on all of them, in their order
    let hashes: Vec<u8> = j.input_commitments.iter().flat_map(|c| c.nullifier_hash.skip_mr()).collect();
    let at = Pubkey::new_from_array(solana_program::hash::hash(&hashes).to_bytes());
    check_eq!(j.associated_nullifier_duplicate_pda_pubkey(), at, "duplicate", "key of the nullifiers");
    check_eq!(j.nullifier_duplicate_pda(), Pubkey::find_program_address(&[b"NullifierDuplicate", &at.to_bytes()], &elusiv::id()), "duplicate", "address of the nullifiers");
    let other: Vec<RawU256> = { let mut o = j.nullifier_hashes(); let i = s.below(o.len()); o[i] = client::raw(s); o };
    check_eq!(NullifierDuplicateAccount::associated_pubkey(&other.iter().collect::<Vec<_>>()) == at, other == j.nullifier_hashes(), "duplicate", "other nullifiers");
    // states
    for (i, st) in [VerificationState::None, VerificationState::FeeTransferred, VerificationState::ProofSetup, VerificationState::InsertNullifiers, VerificationState::Finalized, VerificationState::Closed].into_iter().enumerate() {
        check_eq!((st.try_to_vec().unwrap(), VerificationState::try_from_slice(&[i as u8]).unwrap()), (vec![i as u8], st), "state", "state {i}");
    }
    check_eq!(VerificationState::SIZE, 1, "state", "size of a state");
    // signals
    if let ProofRequest::Send(p) = &r {
        let z = [0u8; 32];
        let n = |v: u64| { let mut b = z; b[..8].copy_from_slice(&v.to_le_bytes()); b };
        let mut e: Vec<U256> = (0..4).map(|i| j.input_commitments.get(i).map(|c| c.nullifier_hash.skip_mr()).unwrap_or(z)).collect();
        e.extend((0..4).map(|i| j.input_commitments.get(i).and_then(|c| c.root).map(|c| c.skip_mr()).unwrap_or(z)));
        e.extend([n(j.amount + j.fee), j.output_commitment.skip_mr(), n(j.recent_commitment_index as u64), n(j.fee_version as u64), n(j.token_id as u64), p.hashed_inputs]);
        check_eq!(p.public_signals_skip_mr(), e, "signals", "public signals");
    }
    s.label(&format!("{} inputs", j.input_commitments.len()));
    s.nontrivial(fnv(&w));
    Ok(())
}

fn main() {
    Suite::new("P22", "every case (distinct by its encoded bytes)")
        .test("fields", 200_000, 4_000_000, fields)
        .test("components", 20_000, 400_000, components)
        .test("scalars", 30_000, 600_000, scalars)
        .test("helpers", 50_000, 1_000_000, helpers)
        .test("instructions", 100_000, 2_000_000, instructions)
        .test("requests", 50_000, 1_000_000, requests)
        .main();
}
