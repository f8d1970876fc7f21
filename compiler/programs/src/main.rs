//! Runtime of the generated programs: executes one of them step by step, with nothing kept between two steps but the storage.
//! Arguments: program index, then groups of five numbers (two arguments, two fields, seed of the memory's former content).
#![allow(warnings)]
use elusiv_computation::{PartialComputation, RAM};
use elusiv_interpreter::elusiv_computations;
use std::ops::{Add, Mul, Sub};

#[derive(Debug)]
pub enum ElusivError { PartialComputationError }
pub use ElusivError::*;

macro_rules! num { ($t:ident, $c:ident, $o:ident, $oc:ident) => {
    #[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
    pub struct $t(pub u64);
    impl Add for $t { type Output = $t; fn add(self, o: $t) -> $t { $t(self.0.wrapping_add(o.0)) } }
    impl Sub for $t { type Output = $t; fn sub(self, o: $t) -> $t { $t(self.0.wrapping_sub(o.0)) } }
    impl Mul for $t { type Output = $t; fn mul(self, o: $t) -> $t { $t(self.0.wrapping_mul(o.0)) } }
    impl $t {
        pub fn one() -> $t { $t(1) }
        pub fn double(self) -> $t { $t(self.0.wrapping_add(self.0)) }
        pub fn quot(self, o: $t) -> Option<$t> { self.0.checked_div(o.0).map($t) }
        pub fn mix(self, o: $t) -> $t { $t(self.0.rotate_left(7).wrapping_mul(31).wrapping_add(o.0)) }
    }
    pub fn $c(x: u64) -> $t { $t(x) }
    pub fn $oc(x: $o) -> $t { $t(x.0 ^ 0x5555) }
} }
num!(Na, na, Nb, from_b);
num!(Nb, nb, Na, from_a);

pub fn index_a(i: usize) -> Na { Na(i as u64) }
pub fn index_b(i: usize) -> Nb { Nb(i as u64) }

/// State of the caller
#[derive(Debug)]
pub struct P { pub x: Na, pub y: Nb }
impl P {
    pub fn bump(&mut self, v: Na) { self.x = Na(self.x.0.wrapping_mul(3).wrapping_add(v.0)); }
}

pub struct Ram<T>(Vec<T>, usize);
impl<T: Copy> RAM<T> for Ram<T> {
    fn write(&mut self, value: T, index: usize) { let i = self.1 + index; self.0[i] = value; }
    fn read(&mut self, index: usize) -> T { self.0[self.1 + index] }
    fn set_frame(&mut self, frame: usize) { self.1 = frame; }
    fn get_frame(&mut self) -> usize { self.1 }
}

pub struct Storage { pub ram_na: Ram<Na>, pub ram_nb: Ram<Nb> }

pub struct Input { pub a: Na, pub b: Nb, pub p: P, pub seed: u64 }
impl Input {
    fn storage(&self) -> Storage {
        let mut s = self.seed;
        let mut next = || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
        Storage { ram_na: Ram((0..300).map(|_| Na(next())).collect(), 0), ram_nb: Ram((0..300).map(|_| Nb(next())).collect(), 0) }
    }
}

pub fn run<const N: usize, C: PartialComputation<N>>(mut i: Input, rounds: usize, mut f: impl FnMut(usize, &mut Storage, Na, Nb, &mut P) -> Result<Option<u64>, ElusivError>) {
    println!("consts {} {} {} {} {} {:?}", rounds, C::TOTAL_ROUNDS, C::TOTAL_COMPUTE_UNITS, C::COMPUTE_BUDGET_PER_IX, C::TX_COUNT, C::INSTRUCTION_ROUNDS);
    let mut s = i.storage();
    for round in 0..rounds {
        let r = f(round, &mut s, i.a, i.b, &mut i.p);
        let frames = (s.ram_na.1, s.ram_nb.1);
        match r {
            Ok(None) => println!("none {} {} {:?}", i.p.x.0, i.p.y.0, frames),
            Ok(Some(v)) => println!("value {} {} {} {:?}", v, i.p.x.0, i.p.y.0, frames),
            Err(_) => { println!("error {} {}", i.p.x.0, i.p.y.0); break; }
        }
    }
}

include!(env!("P30_PROGRAMS"));

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    for c in a[1..].chunks(5) {
        let i = Input { a: Na(c[0]), b: Nb(c[1]), p: P { x: Na(c[2]), y: Nb(c[3]) }, seed: c[4] | 1 };
        println!("input");
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| program(a[0], i)));
        if r.is_err() { println!("panic"); }
    }
}
