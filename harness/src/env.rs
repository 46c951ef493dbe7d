//! What scenario code sees: symbolic inputs, assumptions and proof obligations. One implementation
//! records them for the solver, the other runs natively on concrete values.
use std::cell::RefCell;
use std::collections::BTreeMap;

use relp_num::{RationalBig, Sign, Signed};

use crate::ctx;
use crate::formula::{Fm, NEG, POS, ZER};
use crate::q::Q;
use crate::sym::Sym;

/// Environment for symbolic runs (all state lives in the thread's path context).
#[derive(Default)]
pub struct SymEnv {
    pub outcome: RefCell<Vec<String>>,
}

thread_local! {
    /// Values of the inputs when the symbolic side runs on numbers (exact 128 bit rationals); failures.
    static CONCRETE: RefCell<Option<(BTreeMap<String, Q>, Vec<String>, bool)>> = const { RefCell::new(None) };
}
pub fn set_concrete(values: Option<BTreeMap<String, Q>>) -> Option<(Vec<String>, bool)> {
    CONCRETE.with(|c| c.replace(values.map(|v| (v, vec![], false)))).map(|(_, f, b)| (f, b))
}
fn holds(f: &Fm<Sym>) -> bool {
    match f {
        Fm::T => true,
        Fm::F => false,
        Fm::Sg(n, m) => n.decide(&[*m, 7 & !*m]) == 0,
        Fm::And(v) => v.iter().all(holds),
        Fm::Or(v) => v.iter().any(holds),
        Fm::Not(g) => !holds(g),
    }
}
fn concrete<R>(f: impl FnOnce(&mut (BTreeMap<String, Q>, Vec<String>, bool)) -> R) -> Option<R> {
    CONCRETE.with(|c| c.borrow_mut().as_mut().map(f))
}

impl SymEnv {
    pub fn var(&self, name: &str) -> Sym {
        if let Some(q) = concrete(|c| c.0.get(name).copied().unwrap_or(Q::ZERO)) {
            return Sym::q(q);
        }
        ctx::with(|c| {
            let i = match c.names.iter().position(|n| n == name) {
                Some(i) => i,
                None => {
                    c.names.push(name.to_string());
                    c.names.len() - 1
                }
            };
            Sym::var(i)
        })
    }
    pub fn assume(&self, f: Fm<Sym>) {
        if concrete(|_| ()).is_some() {
            if !holds(&f) {
                concrete(|c| c.2 = true);
            }
            return;
        }
        ctx::with(|c| c.assume(&f));
    }
    pub fn prove(&self, what: &str, f: Fm<Sym>) {
        if concrete(|_| ()).is_some() {
            if !holds(&f) {
                concrete(|c| c.1.push(what.to_string()));
            }
            return;
        }
        ctx::with(|c| {
            c.prove(what, &f);
        });
    }
    /// A sufficient condition for the solver; natively the exact condition is evaluated.
    pub fn prove2(&self, what: &str, f: impl FnOnce() -> Fm<Sym>, exact: impl FnOnce() -> Fm<Sym>) {
        if concrete(|_| ()).is_some() {
            return self.prove(what, exact());
        }
        let f = f();
        if !ctx::with(|c| c.sufficient(&f)) {
            self.prove(what, exact());
        }
    }
    pub fn outcome(&self, s: &str) {
        self.outcome.borrow_mut().push(s.to_string());
    }
    pub const NATIVE: bool = false;
    /// The factorization that the number is taken to have.
    pub fn factors(&self, n: &Sym, f: &[(u64, i32)]) {
        crate::sym::partial_factorization(n, f);
    }
    /// The text denotes the number.
    pub fn token(&self, text: &str, n: &Sym) {
        crate::sym::token(text, n);
    }
    pub fn no_tokens(&self) {
        crate::sym::reset_tokens();
    }
    pub fn no_factors(&self) {
        crate::sym::reset_partial_factorizations();
    }
    /// Decide the formula on this path, splitting the path if necessary (atoms only).
    pub fn split(&self, n: &Sym, mask: u8) -> bool {
        n.decide(&[mask, 7 & !mask]) == 0
    }
}

pub struct NatEnv {
    pub values: BTreeMap<String, Q>,
    pub failures: RefCell<Vec<String>>,
    pub broken_assumption: RefCell<bool>,
    pub outcome: RefCell<Vec<String>>,
}

pub fn to_big(q: Q) -> RationalBig {
    RationalBig::from((q.n, q.d as u128))
}

impl NatEnv {
    pub fn new(values: BTreeMap<String, Q>) -> NatEnv {
        NatEnv {
            values,
            failures: RefCell::new(vec![]),
            broken_assumption: RefCell::new(false),
            outcome: RefCell::new(vec![]),
        }
    }
    pub fn var(&self, name: &str) -> RationalBig {
        to_big(self.values.get(name).copied().unwrap_or(Q::ZERO))
    }
    pub fn eval(f: &Fm<RationalBig>) -> bool {
        match f {
            Fm::T => true,
            Fm::F => false,
            Fm::Sg(n, m) => {
                let s = match n.signum() {
                    Sign::Negative => NEG,
                    Sign::Zero => ZER,
                    Sign::Positive => POS,
                };
                s & m != 0
            }
            Fm::And(v) => v.iter().all(Self::eval),
            Fm::Or(v) => v.iter().any(Self::eval),
            Fm::Not(g) => !Self::eval(g),
        }
    }
    pub fn assume(&self, f: Fm<RationalBig>) {
        if !Self::eval(&f) {
            *self.broken_assumption.borrow_mut() = true;
        }
    }
    pub fn prove(&self, what: &str, f: Fm<RationalBig>) {
        if !Self::eval(&f) {
            self.failures.borrow_mut().push(what.to_string());
        }
    }
    pub fn prove2(
        &self,
        what: &str,
        _f: impl FnOnce() -> Fm<RationalBig>,
        exact: impl FnOnce() -> Fm<RationalBig>,
    ) {
        self.prove(what, exact());
    }
    pub fn outcome(&self, s: &str) {
        self.outcome.borrow_mut().push(s.to_string());
    }
    pub const NATIVE: bool = true;
    pub fn factors(&self, _: &RationalBig, _: &[(u64, i32)]) {}
    pub fn no_factors(&self) {}
    pub fn token(&self, text: &str, n: &RationalBig) {
        NATIVE_TOKENS.with(|t| t.borrow_mut().insert(text.to_string(), n.clone()));
    }
    pub fn no_tokens(&self) {
        NATIVE_TOKENS.with(|t| t.borrow_mut().clear());
    }
    pub fn split(&self, n: &RationalBig, mask: u8) -> bool {
        Self::eval(&Fm::Sg(n.clone(), mask))
    }
}

/// Small values only.
pub fn from_big(x: &RationalBig) -> Q {
    let text = format!("{x:?}");
    let mut parts = text.split(" / ").map(|t| t.trim().parse::<i128>().expect("a small number"));
    let n = parts.next().unwrap();
    Q::new(n, parts.next().unwrap_or(1))
}

thread_local! {
    static NATIVE_TOKENS: RefCell<BTreeMap<String, RationalBig>> = const { RefCell::new(BTreeMap::new()) };
}
/// A number as read from a text, natively.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Read(pub RationalBig);
impl relp::io::mps::number::parse::Parse for Read {
    fn parse(text: &str) -> relp::io::error::ParseResult<Self> {
        match NATIVE_TOKENS.with(|t| t.borrow().get(text).cloned()) {
            Some(n) => Ok(Read(n)),
            None => crate::sym::literal(text).map(|q| Read(to_big(q))).ok_or_else(|| relp::io::error::Parse::new("not a number")),
        }
    }
}
impl std::fmt::Display for Read {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::ops::Add for Read {
    type Output = Read;
    fn add(self, o: Read) -> Read {
        Read(self.0 + o.0)
    }
}
impl std::ops::Sub for Read {
    type Output = Read;
    fn sub(self, o: Read) -> Read {
        Read(self.0 - o.0)
    }
}
impl std::ops::Neg for Read {
    type Output = Read;
    fn neg(self) -> Read {
        Read(-self.0)
    }
}
impl num_traits::Zero for Read {
    fn zero() -> Read {
        Read(to_big(Q::ZERO))
    }
    fn is_zero(&self) -> bool {
        self.0 == to_big(Q::ZERO)
    }
}
impl From<Read> for RationalBig {
    fn from(r: Read) -> RationalBig {
        r.0
    }
}
