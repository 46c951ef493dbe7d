//! The network representation of the code under test, compiled from its source with the symbolic number in
//! the place of the rational number that it names.
#![feature(specialization, type_alias_impl_trait, trait_alias, impl_trait_in_assoc_type)]
#![allow(warnings, incomplete_features, clippy::all)]
pub use relp::{algorithm, data, io};
#[path = "../../../../repo/src/data/linear_program/network/representation.rs"]
pub mod representation;
