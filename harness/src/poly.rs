//! Multivariate polynomials with exact rational coefficients, at most 32 variables, exponents <= 15.
use crate::q::{Q, gcd, limit};

pub const MAX_VARS: usize = 32;
/// 32 nibbles; variable `i` has its exponent in nibble `31 - i`. Integer order is a lex monomial order.
pub type Mono = u128;

const HI: u128 = 0x8888_8888_8888_8888_8888_8888_8888_8888;

pub fn var_mono(i: usize) -> Mono {
    if i >= MAX_VARS {
        limit("too many variables");
    }
    1u128 << (4 * (31 - i))
}
fn mono_mul(a: Mono, b: Mono) -> Mono {
    // No nibble may overflow; exponents above 7 are refused to keep the test simple.
    if (a | b) & HI != 0 {
        limit("degree");
    }
    a + b
}
fn mono_div(a: Mono, b: Mono) -> Option<Mono> {
    // Per nibble a >= b
    let t = (a & !HI) | HI;
    let s = b & !HI;
    if (b & HI) != 0 || (a & HI) != 0 {
        // Slow path
        let mut r = 0u128;
        for k in 0..32 {
            let x = (a >> (4 * k)) & 15;
            let y = (b >> (4 * k)) & 15;
            if x < y {
                return None;
            }
            r |= (x - y) << (4 * k);
        }
        return Some(r);
    }
    if (t - s) & HI == HI { Some(a - b) } else { None }
}
pub fn exponents(m: Mono) -> impl Iterator<Item = (usize, u32)> {
    (0..MAX_VARS).filter_map(move |i| {
        let e = ((m >> (4 * (31 - i))) & 15) as u32;
        (e > 0).then_some((i, e))
    })
}
fn degree(m: Mono) -> u32 {
    exponents(m).map(|(_, e)| e).sum()
}

/// Terms in strictly decreasing monomial order, no zero coefficients.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly(pub Vec<(Mono, Q)>);

impl Poly {
    pub fn zero() -> Poly {
        Poly(vec![])
    }
    pub fn constant(q: Q) -> Poly {
        if q.is_zero() { Poly(vec![]) } else { Poly(vec![(0, q)]) }
    }
    pub fn var(i: usize) -> Poly {
        Poly(vec![(var_mono(i), Q::ONE)])
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_const(&self) -> Option<Q> {
        match self.0.len() {
            0 => Some(Q::ZERO),
            1 if self.0[0].0 == 0 => Some(self.0[0].1),
            _ => None,
        }
    }
    pub fn degree(&self) -> u32 {
        self.0.iter().map(|t| degree(t.0)).max().unwrap_or(0)
    }
    pub fn is_linear(&self) -> bool {
        self.degree() <= 1
    }
    pub fn scale(&self, q: Q) -> Poly {
        if q.is_zero() {
            return Poly::zero();
        }
        if q.is_one() {
            return self.clone();
        }
        Poly(self.0.iter().map(|&(m, c)| (m, c.mul(q))).collect())
    }
    pub fn neg(&self) -> Poly {
        Poly(self.0.iter().map(|&(m, c)| (m, c.neg())).collect())
    }
    pub fn add_scaled(&self, o: &Poly, k: Q) -> Poly {
        let (a, b) = (&self.0, &o.0);
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j == b.len() || (i < a.len() && a[i].0 > b[j].0) {
                r.push(a[i]);
                i += 1;
            } else if i == a.len() || b[j].0 > a[i].0 {
                r.push((b[j].0, b[j].1.mul(k)));
                j += 1;
            } else {
                let c = a[i].1.add(b[j].1.mul(k));
                if !c.is_zero() {
                    r.push((a[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        if r.len() > 20000 {
            limit("polynomial size");
        }
        Poly(r)
    }
    pub fn add(&self, o: &Poly) -> Poly {
        self.add_scaled(o, Q::ONE)
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add_scaled(o, Q::int(-1))
    }
    fn mul_term(&self, m: Mono, q: Q) -> Poly {
        Poly(self.0.iter().map(|&(n, c)| (mono_mul(n, m), c.mul(q))).collect())
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if let Some(q) = o.as_const() {
            return self.scale(q);
        }
        if let Some(q) = self.as_const() {
            return o.scale(q);
        }
        let (s, l) = if self.0.len() < o.0.len() { (self, o) } else { (o, self) };
        let mut acc = Poly::zero();
        for &(m, q) in &s.0 {
            acc = acc.add(&l.mul_term(m, q));
        }
        acc
    }
    /// Exact division, `None` if not divisible.
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        if let Some(q) = d.as_const() {
            return Some(self.scale(q.inv()));
        }
        if self.is_zero() {
            return Some(Poly::zero());
        }
        let (lm, lc) = d.0[0];
        // Cheap rejection: trailing terms have to divide too.
        let (tm, _) = *d.0.last().unwrap();
        mono_div(self.0.last().unwrap().0, tm)?;
        let mut rest = self.clone();
        let mut q = Vec::new();
        while let Some(&(m, c)) = rest.0.first() {
            let mm = mono_div(m, lm)?;
            let cc = c.div(lc);
            q.push((mm, cc));
            rest = rest.sub(&d.mul_term(mm, cc));
        }
        Some(Poly(q))
    }
    /// `(k, p)` with `self == k * p`, `p` with coprime integer coefficients and positive leading one.
    pub fn normalize(&self) -> (Q, Poly) {
        if self.is_zero() {
            return (Q::ONE, Poly::zero());
        }
        let mut g = 0i128;
        let mut l = 1i128;
        for &(_, c) in &self.0 {
            g = gcd(g, c.n);
            let h = gcd(l, c.d);
            l = match l.checked_mul(c.d / h) {
                Some(v) => v,
                None => limit("coefficient overflow"),
            };
        }
        let mut k = Q::new(g, l);
        if self.0[0].1.sign() < 0 {
            k = k.neg();
        }
        if k.is_one() { (k, self.clone()) } else { (k, self.scale(k.inv())) }
    }
    pub fn eval(&self, x: &[Q]) -> Q {
        let mut r = Q::ZERO;
        for &(m, c) in &self.0 {
            let mut t = c;
            for (i, e) in exponents(m) {
                t = t.mul(x.get(i).copied().unwrap_or(Q::ZERO).pow(e));
            }
            r = r.add(t);
        }
        r
    }
    /// Common monomial factor.
    pub fn content_vars(&self) -> Mono {
        let mut g: Option<Mono> = None;
        for &(m, _) in &self.0 {
            g = Some(match g {
                None => m,
                Some(h) => {
                    let mut r = 0;
                    for k in 0..32 {
                        let x = ((m >> (4 * k)) & 15).min((h >> (4 * k)) & 15);
                        r |= x << (4 * k);
                    }
                    r
                }
            });
        }
        g.unwrap_or(0)
    }
    pub fn smt(&self, out: &mut String) {
        // Expects integer coefficients (normalized), but copes with rationals.
        use std::fmt::Write;
        fn coef(c: Q, out: &mut String) {
            let a = if c.n < 0 { -c.n } else { c.n };
            if c.n < 0 {
                out.push_str("(- ");
            }
            if c.d == 1 {
                write!(out, "{}.0", a).unwrap();
            } else {
                write!(out, "(/ {}.0 {}.0)", a, c.d).unwrap();
            }
            if c.n < 0 {
                out.push(')');
            }
        }
        if self.0.is_empty() {
            out.push_str("0.0");
            return;
        }
        if self.0.len() > 1 {
            out.push_str("(+");
        }
        for &(m, c) in &self.0 {
            if self.0.len() > 1 {
                out.push(' ');
            }
            if m == 0 {
                coef(c, out);
            } else {
                let n: u32 = degree(m);
                if n == 1 && c.is_one() {
                    for (i, _) in exponents(m) {
                        write!(out, "x{i}").unwrap();
                    }
                } else {
                    out.push_str("(*");
                    if !c.is_one() {
                        out.push(' ');
                        coef(c, out);
                    }
                    for (i, e) in exponents(m) {
                        for _ in 0..e {
                            write!(out, " x{i}").unwrap();
                        }
                    }
                    out.push(')');
                }
            }
        }
        if self.0.len() > 1 {
            out.push(')');
        }
    }
    pub fn show(&self, names: &dyn Fn(usize) -> String) -> String {
        if self.0.is_empty() {
            return "0".into();
        }
        let mut s = String::new();
        for (k, &(m, c)) in self.0.iter().enumerate() {
            if k > 0 {
                s.push_str(if c.sign() < 0 { " - " } else { " + " });
            } else if c.sign() < 0 {
                s.push('-');
            }
            let a = if c.sign() < 0 { c.neg() } else { c };
            let mut parts = vec![];
            if m == 0 || !a.is_one() {
                parts.push(a.to_string());
            }
            for (i, e) in exponents(m) {
                parts.push(if e == 1 { names(i) } else { format!("{}^{}", names(i), e) });
            }
            s.push_str(&parts.join("*"));
        }
        s
    }
}
