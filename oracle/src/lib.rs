//! Oracles and workload generators for the scilla-parser monitors.
//! Nothing in this crate depends on the code under test.
pub mod dict;
pub mod earley;
pub mod gen;
pub mod grammar;
pub mod iface;
pub mod layout;
pub mod lexref;
pub mod mutate;
pub mod rng;
pub mod tree;
pub mod tygen;
