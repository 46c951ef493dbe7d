//! Parts of the code, compiled from its current sources.
#![allow(dead_code, unused_imports, missing_docs)]
extern crate alloc;
extern crate self as relp_num;

pub mod algorithm { pub mod two_phase { pub mod tableau { pub mod inverse_maintenance { pub mod carry { pub mod lower_upper {
    #[path = "/repo/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs"]
    pub mod permutation;
}}}}}}
pub mod io {
    pub use crate::error;
    pub mod mps { pub mod number {
        #[path = "/repo/src/io/mps/number/parse.rs"]
        pub mod parse;
    }}
}

pub mod error;
mod number;
pub use number::{Rational64, Sign};

pub mod permutations;
pub mod literals;

/// The values of a counterexample, in the order in which the harness asks for them.
#[cfg(not(kani))]
pub mod kani {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local!(pub static VALUES: RefCell<VecDeque<u8>> = RefCell::new(VecDeque::new()));
    pub trait Arbitrary { fn any() -> Self; }
    fn byte() -> u8 { VALUES.with(|v| v.borrow_mut().pop_front().unwrap_or(0)) }
    impl Arbitrary for u8 { fn any() -> Self { byte() } }
    impl Arbitrary for usize {
        fn any() -> Self {
            let mut bytes = [0; 8];
            for b in bytes.iter_mut() { *b = byte(); }
            usize::from_le_bytes(bytes)
        }
    }
    impl<const N: usize> Arbitrary for [u8; N] {
        fn any() -> Self {
            let mut bytes = [0; N];
            for b in bytes.iter_mut() { *b = byte(); }
            bytes
        }
    }
    pub fn any<T: Arbitrary>() -> T { T::any() }
    pub fn any_where<T: Arbitrary>(condition: impl FnOnce(&T) -> bool) -> T {
        let value = T::any();
        assume(condition(&value));
        value
    }
    pub fn assume(condition: bool) {
        if !condition {
            eprintln!("the values are not a counterexample");
            std::process::exit(0);
        }
    }
}
