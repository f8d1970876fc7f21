pub mod acct;
pub mod groth;
pub mod poseidon;
pub mod proxy;
pub mod send;
pub mod settle;
pub mod stages;
pub mod tree;
pub mod world;
pub mod prelude {
    pub use crate::{acct, poseidon, with_acc, send, with_parent, world};
    pub use pbt::*;
}
