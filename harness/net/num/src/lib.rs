//! Stands in for `relp-num` where a source file of the code under test names the concrete rational type:
//! everything is the original, except that the rational number is the symbolic one.
pub use real::*;
pub use relp_verif::sym::Sym as RationalBig;
