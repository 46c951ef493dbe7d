//! Stand-in for the number type that literals are read into: it only keeps what it was made of.
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum Sign { Positive, Zero, Negative }
impl From<bool> for Sign { fn from(p: bool) -> Self { if p { Sign::Positive } else { Sign::Negative } } }

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct Rational64 { pub sign: Sign, pub numerator: u64, pub denominator: u64 }
impl Rational64 {
    pub fn new_signed<T: Into<Sign>>(sign: T, numerator: u64, denominator: u64) -> Self {
        let sign = sign.into();
        assert!(denominator != 0);
        assert!((sign == Sign::Zero) == (numerator == 0));
        Self { sign, numerator, denominator }
    }
    pub fn new(numerator: i64, denominator: u64) -> Option<Self> {
        if denominator == 0 {
            return None;
        }
        let sign = if numerator > 0 { Sign::Positive } else if numerator < 0 { Sign::Negative } else { Sign::Zero };
        Some(Self { sign, numerator: numerator.unsigned_abs(), denominator })
    }
}
impl std::ops::Neg for Rational64 {
    type Output = Self;
    fn neg(self) -> Self {
        let sign = match self.sign { Sign::Positive => Sign::Negative, Sign::Zero => Sign::Zero, Sign::Negative => Sign::Positive };
        Self { sign, ..self }
    }
}
impl From<u64> for Rational64 {
    fn from(value: u64) -> Self { Self { sign: if value == 0 { Sign::Zero } else { Sign::Positive }, numerator: value, denominator: 1 } }
}
impl From<i64> for Rational64 { fn from(value: i64) -> Self { Self::new(value, 1).unwrap() } }
