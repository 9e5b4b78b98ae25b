//! `simrt::std_shim` as a crate, so that it can be linked under the name `std`.
pub use simrt::std_shim::*;
