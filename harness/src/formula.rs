//! Quantifier free formulas over signs of numbers; used for assumptions and for the properties.

pub const NEG: u8 = 1;
pub const ZER: u8 = 2;
pub const POS: u8 = 4;

pub enum Fm<N> {
    T,
    F,
    /// The sign of the number is among those in the mask.
    Sg(N, u8),
    And(Vec<Fm<N>>),
    Or(Vec<Fm<N>>),
    Not(Box<Fm<N>>),
}

impl<N> Fm<N> {
    pub fn not(self) -> Fm<N> {
        match self {
            Fm::T => Fm::F,
            Fm::F => Fm::T,
            Fm::Sg(n, m) => Fm::Sg(n, 7 & !m),
            Fm::Not(f) => *f,
            Fm::And(v) => Fm::Or(v.into_iter().map(Fm::not).collect()),
            Fm::Or(v) => Fm::And(v.into_iter().map(Fm::not).collect()),
        }
    }
    pub fn bool(b: bool) -> Fm<N> {
        if b { Fm::T } else { Fm::F }
    }
    pub fn implies(self, o: Fm<N>) -> Fm<N> {
        Fm::Or(vec![self.not(), o])
    }
}
