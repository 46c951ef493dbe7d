//! Exact rational coefficients (checked 128 bit). Overflow abandons the path as an engine limit.
use std::cmp::Ordering;
use std::fmt;

/// Panic payload telling the explorer that the engine itself (not the code under test) gave up.
pub struct EngineLimit(pub &'static str);

#[cold]
pub fn limit(what: &'static str) -> ! {
    std::panic::panic_any(EngineLimit(what))
}

#[derive(Copy, Clone, PartialEq, Eq, Hash)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}

pub fn gcd(mut a: i128, mut b: i128) -> i128 {
    a = a.abs();
    b = b.abs();
    while b != 0 {
        if a >> 63 == 0 && b >> 63 == 0 {
            let (mut x, mut y) = (a as u64, b as u64);
            while y != 0 {
                (x, y) = (y, x % y);
            }
            return x as i128;
        }
        (a, b) = (b, a % b);
    }
    a
}

fn ck(x: Option<i128>) -> i128 {
    match x {
        Some(v) if v != i128::MIN => v,
        _ => limit("coefficient overflow"),
    }
}

impl Q {
    pub const ZERO: Q = Q { n: 0, d: 1 };
    pub const ONE: Q = Q { n: 1, d: 1 };

    pub fn new(n: i128, d: i128) -> Q {
        assert!(d != 0);
        let g = gcd(n, d);
        let g = if d < 0 { -g } else { g };
        Q { n: n / g, d: d / g }
    }
    pub fn int(n: i64) -> Q {
        Q { n: n as i128, d: 1 }
    }
    pub fn is_zero(self) -> bool {
        self.n == 0
    }
    pub fn is_one(self) -> bool {
        self.n == 1 && self.d == 1
    }
    pub fn sign(self) -> i32 {
        self.n.signum() as i32
    }
    pub fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
    pub fn add(self, o: Q) -> Q {
        if self.d == 1 && o.d == 1 {
            return Q { n: ck(self.n.checked_add(o.n)), d: 1 };
        }
        let g = gcd(self.d, o.d);
        let a = ck(self.n.checked_mul(o.d / g));
        let b = ck(o.n.checked_mul(self.d / g));
        let d = ck((self.d / g).checked_mul(o.d));
        Q::new(ck(a.checked_add(b)), d)
    }
    pub fn sub(self, o: Q) -> Q {
        self.add(o.neg())
    }
    pub fn mul(self, o: Q) -> Q {
        if self.d == 1 && o.d == 1 {
            return Q { n: ck(self.n.checked_mul(o.n)), d: 1 };
        }
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        Q {
            n: ck((self.n / g1).checked_mul(o.n / g2)),
            d: ck((self.d / g2).checked_mul(o.d / g1)),
        }
    }
    pub fn inv(self) -> Q {
        assert!(self.n != 0);
        if self.n < 0 { Q { n: -self.d, d: -self.n } } else { Q { n: self.d, d: self.n } }
    }
    pub fn div(self, o: Q) -> Q {
        self.mul(o.inv())
    }
    pub fn pow(self, mut e: u32) -> Q {
        let mut r = Q::ONE;
        while e > 0 {
            r = r.mul(self);
            e -= 1;
        }
        r
    }
}

impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        self.sub(*o).n.cmp(&0)
    }
}
impl fmt::Display for Q {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.d == 1 { write!(f, "{}", self.n) } else { write!(f, "{}/{}", self.n, self.d) }
    }
}
impl fmt::Debug for Q {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
