//! The symbolic number: an exact multivariate rational function over the symbolic inputs, that
//! implements every number trait the code under test asks for. Comparisons split the path.
use std::borrow::Borrow;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::fmt;
use std::iter::Sum;
use std::ops::*;
use std::rc::Rc;

use relp_num::{Binary, NonZero, One, Sign, Signed};

use crate::ctx::{self, with};
use crate::formula::{NEG, POS, ZER};
use crate::poly::{Poly, exponents};
use crate::q::Q;

#[derive(Clone)]
pub enum Sym {
    C(Q),
    V(Rc<Val>),
}

/// `num / prod(factor(i)^e)`
pub struct Val {
    num: Poly,
    den: Vec<(u16, u16)>,
}

thread_local! {
    static FACTORS: RefCell<(Vec<Poly>, HashMap<Poly, u16>)> = RefCell::new((vec![], HashMap::new()));
}

pub fn reset_factors() {
    FACTORS.with(|f| {
        let mut f = f.borrow_mut();
        f.0.clear();
        f.1.clear();
    });
}
fn factor(i: u16) -> Poly {
    FACTORS.with(|f| f.borrow().0[i as usize].clone())
}
fn intern(p: &Poly) -> u16 {
    FACTORS.with(|f| {
        let mut f = f.borrow_mut();
        if let Some(&i) = f.1.get(p) {
            return i;
        }
        let i = f.0.len() as u16;
        f.0.push(p.clone());
        f.1.insert(p.clone(), i);
        i
    })
}
/// Split a normalized polynomial in known factors, variables and a rest.
fn factorize(mut p: Poly) -> Vec<(u16, u16)> {
    let mut out: Vec<(u16, u16)> = vec![];
    let mut bump = |i: u16, e: u16| match out.iter_mut().find(|x| x.0 == i) {
        Some(x) => x.1 += e,
        None => out.push((i, e)),
    };
    for (i, e) in exponents(p.content_vars()) {
        let v = Poly::var(i);
        for _ in 0..e {
            p = p.div_exact(&v).unwrap();
        }
        bump(intern(&v), e as u16);
    }
    let n = FACTORS.with(|f| f.borrow().0.len());
    for i in 0..n {
        if p.as_const().is_some() {
            break;
        }
        let f = factor(i as u16);
        while let Some(q) = if p.as_const().is_none() { p.div_exact(&f) } else { None } {
            p = q;
            bump(i as u16, 1);
        }
    }
    if p.as_const().is_none() {
        let (_, p) = p.normalize();
        bump(intern(&p), 1);
    }
    out
}

fn mk(num: Poly, mut den: Vec<(u16, u16)>) -> Sym {
    ctx::tick();
    if num.is_zero() {
        return Sym::C(Q::ZERO);
    }
    let mut num = num;
    for d in den.iter_mut() {
        let f = factor(d.0);
        while d.1 > 0 {
            match num.div_exact(&f) {
                Some(q) => {
                    num = q;
                    d.1 -= 1;
                }
                None => break,
            }
        }
    }
    den.retain(|d| d.1 > 0);
    if den.is_empty() {
        if let Some(c) = num.as_const() {
            return Sym::C(c);
        }
    }
    den.sort_unstable();
    Sym::V(Rc::new(Val { num, den }))
}

impl Sym {
    pub fn var(i: usize) -> Sym {
        Sym::V(Rc::new(Val { num: Poly::var(i), den: vec![] }))
    }
    pub fn q(q: Q) -> Sym {
        Sym::C(q)
    }
    fn parts(&self) -> (Poly, Vec<(u16, u16)>) {
        match self {
            Sym::C(q) => (Poly::constant(*q), vec![]),
            Sym::V(v) => (v.num.clone(), v.den.clone()),
        }
    }
    pub fn as_const(&self) -> Option<Q> {
        match self {
            Sym::C(q) => Some(*q),
            Sym::V(_) => None,
        }
    }
    fn addk(&self, o: &Sym, k: Q) -> Sym {
        match (self, o) {
            (Sym::C(a), Sym::C(b)) => Sym::C(a.add(b.mul(k))),
            _ => {
                let (n1, d1) = self.parts();
                let (n2, d2) = o.parts();
                if d1 == d2 {
                    return mk(n1.add_scaled(&n2, k), d1);
                }
                let mut den = d1.clone();
                for &(i, e) in &d2 {
                    match den.iter_mut().find(|x| x.0 == i) {
                        Some(x) => x.1 = x.1.max(e),
                        None => den.push((i, e)),
                    }
                }
                let lift = |mut n: Poly, d: &[(u16, u16)]| {
                    for &(i, e) in &den {
                        let have = d.iter().find(|x| x.0 == i).map_or(0, |x| x.1);
                        for _ in have..e {
                            n = n.mul(&factor(i));
                        }
                    }
                    n
                };
                let a = lift(n1, &d1);
                let b = lift(n2, &d2);
                mk(a.add_scaled(&b, k), den)
            }
        }
    }
    fn times(&self, o: &Sym) -> Sym {
        match (self, o) {
            (Sym::C(a), Sym::C(b)) => Sym::C(a.mul(*b)),
            _ => {
                // Cancel crosswise first: keeps degrees low
                let (n1, d1) = self.parts();
                let (n2, d2) = o.parts();
                let cancel = |mut n: Poly, mut d: Vec<(u16, u16)>| {
                    for x in d.iter_mut() {
                        let f = factor(x.0);
                        while x.1 > 0 && !n.is_zero() {
                            match n.div_exact(&f) {
                                Some(q) => {
                                    n = q;
                                    x.1 -= 1;
                                }
                                None => break,
                            }
                        }
                    }
                    d.retain(|x| x.1 > 0);
                    (n, d)
                };
                let (n1, d2) = cancel(n1, d2);
                let (n2, d1) = cancel(n2, d1);
                let mut den = d1;
                for (i, e) in d2 {
                    match den.iter_mut().find(|x| x.0 == i) {
                        Some(x) => x.1 += e,
                        None => den.push((i, e)),
                    }
                }
                mk(n1.mul(&n2), den)
            }
        }
    }
    fn over(&self, o: &Sym) -> Sym {
        if o.decide(&[ZER, NEG | POS]) == 0 {
            panic!("attempt to divide by zero");
        }
        match o {
            Sym::C(b) => self.times(&Sym::C(b.inv())),
            Sym::V(v) => {
                let mut inv_num = Poly::constant(Q::ONE);
                for &(i, e) in &v.den {
                    for _ in 0..e {
                        inv_num = inv_num.mul(&factor(i));
                    }
                }
                let (k, p) = v.num.normalize();
                let fs = factorize(p.clone());
                // factors are normalized, their product is normalized up to a positive constant
                let mut prod = Poly::constant(Q::ONE);
                for &(i, e) in &fs {
                    for _ in 0..e {
                        prod = prod.mul(&factor(i));
                    }
                }
                let c = p.div_exact(&prod).and_then(|q| q.as_const()).expect("factorization");
                let inv = mk(inv_num.scale(k.mul(c).inv()), fs);
                self.times(&inv)
            }
        }
    }
    fn negated(&self) -> Sym {
        match self {
            Sym::C(q) => Sym::C(q.neg()),
            Sym::V(v) => Sym::V(Rc::new(Val { num: v.num.neg(), den: v.den.clone() })),
        }
    }
    /// `(k, p, dens)`: the sign of the value is `sign(k) * sign(p) * prod(sign(dens))`
    pub fn sign_parts(&self) -> (Q, Poly, Vec<Poly>) {
        match self {
            Sym::C(q) => (*q, Poly::constant(Q::ONE), vec![]),
            Sym::V(v) => {
                let (k, p) = v.num.normalize();
                (k, p, v.den.iter().filter(|d| d.1 % 2 == 1).map(|d| factor(d.0)).collect())
            }
        }
    }
    /// In which class of signs is this value? Splits the path when more than one is possible.
    pub fn decide(&self, classes: &[u8]) -> usize {
        let (k, p, den) = self.sign_parts();
        // Only the zero question does not depend on the denominators.
        let symmetric = classes.iter().all(|&c| ctx::flip(c) == c);
        let mut neg = k.sign() < 0;
        if !symmetric && !k.is_zero() {
            for d in den {
                if factor_sign(&d) == 0 {
                    neg = !neg;
                }
            }
        }
        if let Some(c) = p.as_const() {
            let s = if k.is_zero() { ZER } else { ctx::sign_mask(c) };
            let s = if neg { ctx::flip(s) } else { s };
            return classes.iter().position(|c| c & s != 0).unwrap();
        }
        let cl: Vec<u8> = if neg { classes.iter().map(|&c| ctx::flip(c)).collect() } else { classes.to_vec() };
        with(|c| c.decide(&p, &cl))
    }
    /// The value in a point.
    pub fn eval(&self, x: &[Q]) -> Q {
        match self {
            Sym::C(q) => *q,
            Sym::V(v) => {
                let mut r = v.num.eval(x);
                for &(i, e) in &v.den {
                    let f = factor(i).eval(x);
                    for _ in 0..e {
                        r = r.div(f);
                    }
                }
                r
            }
        }
    }
    fn sgn3(&self) -> Ordering {
        match self.decide(&[NEG, ZER, POS]) {
            0 => Ordering::Less,
            1 => Ordering::Equal,
            _ => Ordering::Greater,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Sym::C(q) => q.to_string(),
            Sym::V(v) => {
                let name = |i: usize| format!("x{i}");
                let n = v.num.show(&name);
                if v.den.is_empty() {
                    n
                } else {
                    let d: Vec<String> = v
                        .den
                        .iter()
                        .map(|&(i, e)| format!("({})^{e}", factor(i).show(&name)))
                        .collect();
                    format!("({n})/({})", d.join("*"))
                }
            }
        }
    }
}

/// 0: negative, 1: positive. Denominator factors are known not to be zero.
fn factor_sign(p: &Poly) -> usize {
    with(|c| {
        let e = c.facts.entry(p.clone()).or_insert(7);
        *e &= NEG | POS;
        c.decide(p, &[NEG, POS, ZER])
    })
}

impl NonZero for Sym {
    fn is_not_zero(&self) -> bool {
        self.decide(&[ZER, NEG | POS]) == 1
    }
}
impl Signed for Sym {
    fn signum(&self) -> Sign {
        match self.sgn3() {
            Ordering::Less => Sign::Negative,
            Ordering::Equal => Sign::Zero,
            Ordering::Greater => Sign::Positive,
        }
    }
    fn is_positive(&self) -> bool {
        self.decide(&[NEG | ZER, POS]) == 1
    }
    fn is_negative(&self) -> bool {
        self.decide(&[NEG, ZER | POS]) == 0
    }
}
impl num_traits::Zero for Sym {
    fn zero() -> Sym {
        Sym::C(Q::ZERO)
    }
    fn is_zero(&self) -> bool {
        self.decide(&[ZER, NEG | POS]) == 0
    }
}
impl num_traits::One for Sym {
    fn one() -> Sym {
        Sym::C(Q::ONE)
    }
}
impl Default for Sym {
    fn default() -> Sym {
        Sym::C(Q::ZERO)
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        self.addk(o, Q::int(-1)).decide(&[ZER, NEG | POS]) == 0
    }
}
impl Eq for Sym {}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        Some(self.cmp(o))
    }
    fn lt(&self, o: &Sym) -> bool {
        self.addk(o, Q::int(-1)).decide(&[NEG, ZER | POS]) == 0
    }
    fn le(&self, o: &Sym) -> bool {
        self.addk(o, Q::int(-1)).decide(&[NEG | ZER, POS]) == 0
    }
    fn gt(&self, o: &Sym) -> bool {
        self.addk(o, Q::int(-1)).decide(&[NEG | ZER, POS]) == 1
    }
    fn ge(&self, o: &Sym) -> bool {
        self.addk(o, Q::int(-1)).decide(&[NEG, ZER | POS]) == 1
    }
}
impl Ord for Sym {
    fn cmp(&self, o: &Sym) -> Ordering {
        self.addk(o, Q::int(-1)).sgn3()
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.show())
    }
}
impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.show())
    }
}

macro_rules! binop {
    ($tr:ident, $m:ident, $tra:ident, $ma:ident, |$a:ident, $b:ident| $e:expr) => {
        impl $tr<Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                let ($a, $b) = (&self, &o);
                $e
            }
        }
        impl $tr<&Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: &Sym) -> Sym {
                let ($a, $b) = (&self, o);
                $e
            }
        }
        impl $tr<Sym> for &Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                let ($a, $b) = (self, &o);
                $e
            }
        }
        impl $tr<&Sym> for &Sym {
            type Output = Sym;
            fn $m(self, o: &Sym) -> Sym {
                let ($a, $b) = (self, o);
                $e
            }
        }
        impl $tra<Sym> for Sym {
            fn $ma(&mut self, o: Sym) {
                *self = {
                    let ($a, $b) = (&*self, &o);
                    $e
                };
            }
        }
        impl $tra<&Sym> for Sym {
            fn $ma(&mut self, o: &Sym) {
                *self = {
                    let ($a, $b) = (&*self, o);
                    $e
                };
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, |a, b| a.addk(b, Q::ONE));
binop!(Sub, sub, SubAssign, sub_assign, |a, b| a.addk(b, Q::int(-1)));
binop!(Mul, mul, MulAssign, mul_assign, |a, b| a.times(b));
binop!(Div, div, DivAssign, div_assign, |a, b| a.over(b));

impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        self.negated()
    }
}
impl Neg for &Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        self.negated()
    }
}
impl Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(Sym::C(Q::ZERO), |a, b| a.addk(&b, Q::ONE))
    }
}
impl From<&Sym> for Sym {
    fn from(s: &Sym) -> Sym {
        s.clone()
    }
}

// Interaction with the constant one
impl From<One> for Sym {
    fn from(_: One) -> Sym {
        Sym::C(Q::ONE)
    }
}
impl From<&One> for Sym {
    fn from(_: &One) -> Sym {
        Sym::C(Q::ONE)
    }
}
impl Add<One> for Sym {
    type Output = Sym;
    fn add(self, _: One) -> Sym {
        self + Sym::C(Q::ONE)
    }
}
impl Add<&One> for Sym {
    type Output = Sym;
    fn add(self, _: &One) -> Sym {
        self + Sym::C(Q::ONE)
    }
}
impl AddAssign<One> for Sym {
    fn add_assign(&mut self, _: One) {
        *self += Sym::C(Q::ONE);
    }
}
impl AddAssign<&One> for Sym {
    fn add_assign(&mut self, _: &One) {
        *self += Sym::C(Q::ONE);
    }
}
impl Mul<One> for Sym {
    type Output = Sym;
    fn mul(self, _: One) -> Sym {
        self
    }
}
impl Mul<&One> for Sym {
    type Output = Sym;
    fn mul(self, _: &One) -> Sym {
        self
    }
}
impl Mul<One> for &Sym {
    type Output = Sym;
    fn mul(self, _: One) -> Sym {
        self.clone()
    }
}
impl Mul<&One> for &Sym {
    type Output = Sym;
    fn mul(self, _: &One) -> Sym {
        self.clone()
    }
}

// Interaction with binary values (artificial costs)
impl Add<Binary> for Sym {
    type Output = Sym;
    fn add(self, b: Binary) -> Sym {
        match b {
            Binary::Zero => self,
            Binary::One => self + Sym::C(Q::ONE),
        }
    }
}
impl Mul<Binary> for Sym {
    type Output = Sym;
    fn mul(self, b: Binary) -> Sym {
        match b {
            Binary::Zero => Sym::C(Q::ZERO),
            Binary::One => self,
        }
    }
}
impl Mul<Binary> for &Sym {
    type Output = Sym;
    fn mul(self, b: Binary) -> Sym {
        self.clone() * b
    }
}

// Interaction with optional costs
impl Add<Option<&Sym>> for Sym {
    type Output = Sym;
    fn add(self, o: Option<&Sym>) -> Sym {
        match o {
            None => self,
            Some(o) => self + o,
        }
    }
}
impl Mul<Option<&Sym>> for Sym {
    type Output = Sym;
    fn mul(self, o: Option<&Sym>) -> Sym {
        match o {
            None => Sym::C(Q::ZERO),
            Some(o) => self * o,
        }
    }
}
impl Mul<Option<&Sym>> for &Sym {
    type Output = Sym;
    fn mul(self, o: Option<&Sym>) -> Sym {
        match o {
            None => Sym::C(Q::ZERO),
            Some(o) => self * o,
        }
    }
}

#[allow(dead_code)]
fn assert_borrow() {
    fn f<T: Borrow<Sym>>() {}
    f::<Sym>();
}

// Interaction with arc directions (the operators of the code under test itself, see the crate for networks)
impl relp_num::Negateable for Sym {
    fn negate(&mut self) {
        *self = self.negated();
    }
}
impl Sub<One> for Sym {
    type Output = Sym;
    fn sub(self, _: One) -> Sym {
        self - Sym::C(Q::ONE)
    }
}
impl Sub<&One> for Sym {
    type Output = Sym;
    fn sub(self, _: &One) -> Sym {
        self - Sym::C(Q::ONE)
    }
}
impl SubAssign<One> for Sym {
    fn sub_assign(&mut self, _: One) {
        *self -= Sym::C(Q::ONE);
    }
}
impl SubAssign<&One> for Sym {
    fn sub_assign(&mut self, _: &One) {
        *self -= Sym::C(Q::ONE);
    }
}

/// A factor of a number, for scaling.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Prime(pub u64);
impl NonZero for Prime {
    fn is_not_zero(&self) -> bool {
        self.0 != 0
    }
}
macro_rules! by_prime {
    ($($tr:ident $m:ident),*) => {$(
        impl $tr<Prime> for Sym {
            fn $m(&mut self, p: Prime) {
                self.$m(Sym::C(Q::int(p.0 as i64)));
            }
        }
        impl $tr<&Prime> for Sym {
            fn $m(&mut self, p: &Prime) {
                self.$m(Sym::C(Q::int(p.0 as i64)));
            }
        }
    )*};
}
by_prime!(MulAssign mul_assign, DivAssign div_assign);

thread_local! {
    /// Factorizations that inputs are taken to have: any partial factorization is a legal one.
    static PARTIAL: RefCell<HashMap<String, Vec<(Prime, i32)>>> = RefCell::new(HashMap::new());
}
pub fn reset_partial_factorizations() {
    PARTIAL.with(|p| p.borrow_mut().clear());
}
pub fn partial_factorization(n: &Sym, f: &[(u64, i32)]) {
    let mut v: Vec<(Prime, i32)> = f.iter().filter(|x| x.1 != 0).map(|x| (Prime(x.0), x.1)).collect();
    v.sort();
    PARTIAL.with(|p| p.borrow_mut().insert(n.show(), v));
}
impl relp_num::NonZeroFactorizable for Sym {
    type Factor = Prime;
    type Power = i32;
    fn factorize(&self) -> relp_num::NonZeroFactorization<Prime, i32> {
        let factors = PARTIAL.with(|p| p.borrow().get(&self.show()).cloned()).unwrap_or_else(|| {
            let mut v = vec![];
            if let Sym::C(q) = self {
                for p in 2..100 {
                    let (mut e, mut n, mut d) = (0, q.n.abs(), q.d);
                    while n != 0 && n % p == 0 {
                        n /= p;
                        e += 1;
                    }
                    while d % p == 0 {
                        d /= p;
                        e -= 1;
                    }
                    if e != 0 && (2..p).all(|r| p % r != 0) {
                        v.push((Prime(p as u64), e));
                    }
                }
            }
            v
        });
        // The sign is not used by anyone
        relp_num::NonZeroFactorization { sign: relp_num::NonZeroSign::Positive, factors }
    }
}

thread_local! {
    /// Texts that denote inputs.
    static TOKENS: RefCell<HashMap<String, Sym>> = RefCell::new(HashMap::new());
}
pub fn token(text: &str, n: &Sym) {
    TOKENS.with(|t| t.borrow_mut().insert(text.to_string(), n.clone()));
}
pub fn reset_tokens() {
    TOKENS.with(|t| t.borrow_mut().clear());
}
/// Plain decimal numbers; only those that the scenarios write.
pub fn literal(text: &str) -> Option<Q> {
    let (minus, digits) = match text.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, text),
    };
    let (whole, part) = digits.split_once('.').unwrap_or((digits, ""));
    if (whole.len() + part.len() == 0) || whole.len() + part.len() > 12 || !whole.bytes().chain(part.bytes()).all(|b| b.is_ascii_digit()) {
        return None;
    }
    let n: i128 = format!("{whole}{part}").parse().ok()?;
    Some(Q::new(if minus { -n } else { n }, 10i128.pow(part.len() as u32)))
}
impl relp::io::mps::number::parse::Parse for Sym {
    fn parse(text: &str) -> relp::io::error::ParseResult<Self> {
        match TOKENS.with(|t| t.borrow().get(text).cloned()) {
            Some(n) => Ok(n),
            None => literal(text).map(Sym::q).ok_or_else(|| relp::io::error::Parse::new("not a number")),
        }
    }
}
