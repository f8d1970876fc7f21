//! Reference Poseidon over BN254 Fr (t = 3, RF = 8, RP = 57; the instance of circomlib): constants and MDS
//! matrix are derived here from the Grain LFSR of the Poseidon paper, not taken from the code under test.
use ark_bn254::Fr;
use ark_ff::{BigInteger256, Field, FpParameters, PrimeField, Zero, One};
use std::sync::OnceLock;

const T: usize = 3;
const RF: usize = 8;
const RP: usize = 57;

struct Grain(std::collections::VecDeque<bool>);
impl Grain {
    fn new() -> Self {
        let mut b = std::collections::VecDeque::new();
        let mut put = |v: u64, n: usize| for i in (0..n).rev() { b.push_back((v >> i) & 1 == 1) };
        put(1, 2);
        put(0, 4);
        put(254, 12);
        put(T as u64, 12);
        put(RF as u64, 10);
        put(RP as u64, 10);
        put((1 << 30) - 1, 30);
        let mut g = Grain(b);
        for _ in 0..160 { g.step(); }
        g
    }
    fn step(&mut self) -> bool {
        let s = &self.0;
        let n = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0];
        self.0.pop_front();
        self.0.push_back(n);
        n
    }
    fn bit(&mut self) -> bool {
        loop {
            let a = self.step();
            let b = self.step();
            if a { return b; }
        }
    }
    /// 254 random bits, most significant first
    fn bits(&mut self) -> [u64; 4] {
        let mut v = [0u64; 4];
        for i in (0..254).rev() {
            if self.bit() { v[i / 64] |= 1 << (i % 64); }
        }
        v
    }
}

fn below_modulus(v: &[u64; 4]) -> bool {
    let m = <<Fr as PrimeField>::Params as FpParameters>::MODULUS.0;
    for i in (0..4).rev() {
        if v[i] != m[i] { return v[i] < m[i]; }
    }
    false
}

/// v mod p by bits (v may exceed p)
pub fn fr_from_limbs(v: &[u64; 4]) -> Fr {
    let mut r = Fr::zero();
    for i in (0..256).rev() {
        r = r + r;
        if (v[i / 64] >> (i % 64)) & 1 == 1 { r += Fr::one(); }
    }
    r
}

pub struct Params {
    pub rc: Vec<Fr>,
    pub mds: [[Fr; T]; T],
}

pub fn params() -> &'static Params {
    static P: OnceLock<Params> = OnceLock::new();
    P.get_or_init(|| {
        let mut g = Grain::new();
        let mut rc = Vec::new();
        while rc.len() < T * (RF + RP) {
            let v = g.bits();
            if below_modulus(&v) { rc.push(fr_from_limbs(&v)); }
        }
        let mut xs = Vec::new();
        for _ in 0..2 * T { let v = g.bits(); xs.push(fr_from_limbs(&v)); }
        let mut mds = [[Fr::zero(); T]; T];
        for i in 0..T { for j in 0..T { mds[i][j] = (xs[i] + xs[T + j]).inverse().unwrap(); } }
        Params { rc, mds }
    })
}

fn mix(s: [Fr; T]) -> [Fr; T] {
    let m = &params().mds;
    let mut n = [Fr::zero(); T];
    for i in 0..T { for j in 0..T { n[i] += m[i][j] * s[j]; } }
    n
}

pub fn hash2(a: Fr, b: Fr) -> Fr {
    let p = params();
    let mut s = [Fr::zero(), a, b];
    for r in 0..RF + RP {
        for i in 0..T { s[i] += p.rc[r * T + i]; }
        let full = r < RF / 2 || r >= RF / 2 + RP;
        for i in 0..if full { T } else { 1 } {
            let q = s[i] * s[i];
            s[i] = q * q * s[i];
        }
        s = mix(s);
    }
    s[0]
}

pub fn fr_u64(v: u64) -> Fr { fr_from_limbs(&[v, 0, 0, 0]) }

/// 32 little-endian bytes of the canonical integer → field element (reduced mod p)
pub fn fr_from_le(b: &[u8; 32]) -> Fr {
    let mut v = [0u64; 4];
    for i in 0..4 { v[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap()); }
    fr_from_limbs(&v)
}
pub fn fr_to_le(f: &Fr) -> [u8; 32] {
    let BigInteger256(v) = f.into_repr();
    let mut b = [0; 32];
    for i in 0..4 { b[i * 8..i * 8 + 8].copy_from_slice(&v[i].to_le_bytes()); }
    b
}
/// canonical little-endian byte form below the modulus?
pub fn is_canonical(b: &[u8; 32]) -> bool {
    let mut v = [0u64; 4];
    for i in 0..4 { v[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap()); }
    below_modulus(&v)
}
/// Montgomery-form ("mr") little-endian bytes, the on-chain representation: value * 2^256 mod p
pub fn fr_to_mr(f: &Fr) -> [u8; 32] {
    fr_to_le(&(*f * r256()))
}
pub fn mr_to_fr(b: &[u8; 32]) -> Fr { fr_from_le(b) * r256_inv() }
pub fn r256() -> Fr {
    static R: OnceLock<Fr> = OnceLock::new();
    *R.get_or_init(|| { let mut r = Fr::one(); for _ in 0..256 { r = r + r; } r })
}
fn r256_inv() -> Fr {
    static R: OnceLock<Fr> = OnceLock::new();
    *R.get_or_init(|| r256().inverse().unwrap())
}

/// decimal string → Fr
pub fn fr_dec(s: &str) -> Fr {
    let ten = fr_u64(10);
    s.bytes().fold(Fr::zero(), |a, c| a * ten + fr_u64((c - b'0') as u64))
}

pub fn kat() {
    assert_eq!(hash2(fr_u64(1), fr_u64(2)), fr_dec("7853200120776062878684798364095072458815029376092732009249414926327459813530"));
    assert_eq!(hash2(fr_u64(0), fr_u64(0)), fr_dec("14744269619966411208579211824598458697587494354926760081771325075741142829156"));
}
