//! Derived types (generated from the seed) and the checks on them
mod defs {
    #![allow(warnings)]
    pub use cbored::tagged::*;
    pub use cbored::{CborDataOf, CborRepr, DataOwned, Decode, Encode, Scalar};
    pub use vh::lab::{fns, vec_from_val, vec_to_val, Fns, Lab, Val, VecOf};
    include!(concat!(env!("VERIF_GEN"), "/defs.rs"));
}
fn main() {
    vh::lab::install(vh::lab::Table { defs: vh::labgen::definitions(defs::SEED, defs::COUNT), fns: defs::all() });
    vh::engine::main_with(vh::props::DERIVE);
}
