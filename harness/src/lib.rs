//! Solver based checking of relp: the real generic code runs on symbolic numbers.
#![allow(clippy::all)]
pub mod ctx;
pub mod env;
pub mod explore;
pub mod formula;
pub mod json;
pub mod lpq;
pub mod poly;
pub mod q;
pub mod smt;
pub mod sym;
pub use relp_num;

/// The scenario files, once with symbolic and once with rational numbers.
#[macro_export]
macro_rules! sides {
    ($($file:literal),*) => {
        #[allow(dead_code, unused_imports, clippy::all)]
        mod sym_side {
            use $crate::env::SymEnv as E;
            use $crate::sym::Sym as N;
            use $crate::sym::Sym as Raw;
            fn nq(q: $crate::q::Q) -> N {
                N::q(q)
            }
            fn definitely_nonzero(n: &N) -> bool {
                n.as_const().is_some_and(|q| !q.is_zero())
            }
            fn fixed_value(n: &N) -> $crate::q::Q {
                n.as_const().expect("a fixed coefficient")
            }
            $(include!($file);)*
        }
        #[allow(dead_code, unused_imports, clippy::all)]
        mod nat_side {
            use $crate::relp_num::RationalBig as N;
            use $crate::env::Read as Raw;
            use $crate::env::NatEnv as E;
            fn nq(q: $crate::q::Q) -> N {
                $crate::env::to_big(q)
            }
            fn definitely_nonzero(_: &N) -> bool {
                false
            }
            fn fixed_value(n: &N) -> $crate::q::Q {
                $crate::env::from_big(n)
            }
            $(include!($file);)*
        }
    };
}

/// A scenario that calls the same function on both sides: `scenario!(id, limits, function, arg, ...)`; the
/// arguments have to be `Clone` and are passed by reference.
#[macro_export]
macro_rules! scenario {
    ($id:expr, $paths:expr, $ops:expr, |$e:ident, $($cap:ident),*| $side:ident => $body:expr) => {{
        let sym = {
            $(let $cap = $cap.clone();)*
            Box::new(move |$e: &$crate::env::SymEnv| { use crate::sym_side as $side; $body })
        };
        let nat = {
            $(let $cap = $cap.clone();)*
            Box::new(move |$e: &$crate::env::NatEnv| { use crate::nat_side as $side; $body })
        };
        $crate::explore::Scenario { id: $id, sym, nat, max_paths: $paths, max_ops: $ops, max_decisions: 400, partial: false }
    }};
}
