// Included twice: with `N` the symbolic number and with `N` the rational number users compute with.
#[allow(unused_imports)]
use relp_verif::formula::{Fm, NEG, POS, ZER};
#[allow(unused_imports)]
use relp_verif::lpq::*;
#[allow(unused_imports)]
use relp_verif::q::Q;

#[allow(dead_code)]
type F = Fm<N>;

#[allow(dead_code)]
fn k(i: i64) -> N {
    nq(Q::int(i))
}
#[allow(dead_code)]
fn eq(a: &N, b: &N) -> F {
    Fm::Sg(a.clone() - b, ZER)
}
#[allow(dead_code)]
fn le(a: &N, b: &N) -> F {
    Fm::Sg(a.clone() - b, NEG | ZER)
}
#[allow(dead_code)]
fn lt(a: &N, b: &N) -> F {
    Fm::Sg(a.clone() - b, NEG)
}
#[allow(dead_code)]
fn ge0(a: &N) -> F {
    Fm::Sg(a.clone(), POS | ZER)
}
#[allow(dead_code)]
fn is0(a: &N) -> F {
    Fm::Sg(a.clone(), ZER)
}
#[allow(dead_code)]
fn dot_q(a: &[Q], x: &[N]) -> N {
    let mut s = k(0);
    for (q, v) in a.iter().zip(x) {
        if !q.is_zero() {
            s += nq(*q) * v;
        }
    }
    s
}
#[allow(dead_code)]
fn dot(a: &[N], x: &[N]) -> N {
    let mut s = k(0);
    for (p, v) in a.iter().zip(x) {
        s += p.clone() * v;
    }
    s
}
#[allow(dead_code)]
fn input(e: &E, v: &V) -> N {
    match v {
        V::K(i) => k(*i),
        V::Free(s, i) => e.var(&format!("{s}{i}")),
        V::NonNeg(s, i) => {
            let x = e.var(&format!("{s}{i}"));
            e.assume(ge0(&x));
            x
        }
        V::Pos(s, i) => {
            let x = e.var(&format!("{s}{i}"));
            e.assume(Fm::Sg(x.clone(), POS));
            x
        }
        V::Lin(co, s) => {
            let mut sum = k(0);
            for (i, &c) in co.iter().enumerate() {
                let x = e.var(&format!("{s}{i}"));
                e.assume(ge0(&x));
                sum += k(c) * x;
            }
            e.assume(ge0(&sum));
            sum
        }
        V::Neg(s, i) => {
            let x = e.var(&format!("{s}{i}"));
            e.assume(Fm::Sg(x.clone(), NEG));
            x
        }
        V::NonZero(s, i) => {
            let x = e.var(&format!("{s}{i}"));
            e.assume(Fm::Sg(x.clone(), NEG | POS));
            x
        }
    }
}

/// Oracle for `min c x, A x = b, x >= 0` with concrete `A`.
#[allow(dead_code)]
struct Oracle<'a> {
    bs: &'a Bases,
    b: Vec<N>,
    c: Vec<N>,
}
#[allow(dead_code)]
impl<'a> Oracle<'a> {
    fn consistent(&self) -> F {
        Fm::And(self.bs.null.iter().map(|v| is0(&dot_q(v, &self.b))).collect())
    }
    fn basic(&self, inv: &[Vec<Q>]) -> Vec<N> {
        let br: Vec<N> = self.bs.rows.iter().map(|&i| self.b[i].clone()).collect();
        inv.iter().map(|r| dot_q(r, &br)).collect()
    }
    fn feasible_basis(&self, inv: &[Vec<Q>]) -> F {
        Fm::And(self.basic(inv).iter().map(ge0).collect())
    }
    fn feasible(&self) -> F {
        Fm::And(vec![
            self.consistent(),
            Fm::Or(self.bs.bases.iter().map(|(_, inv)| self.feasible_basis(inv)).collect()),
        ])
    }
    fn improving_ray(&self) -> F {
        Fm::Or(self.bs.rays.iter().map(|r| Fm::Sg(dot_q(r, &self.c), NEG)).collect())
    }
    fn unbounded(&self) -> F {
        Fm::And(vec![self.feasible(), self.improving_ray()])
    }
    fn is_point(&self, x: &[N]) -> F {
        let mut v: Vec<F> = x.iter().map(ge0).collect();
        for i in 0..self.bs.m {
            v.push(eq(&dot_q(&self.bs.a[i], x), &self.b[i]));
        }
        Fm::And(v)
    }
    fn dual_feasible(&self, cols: &[usize], inv: &[Vec<Q>]) -> F {
        // y = c_B B^-1, c_j - y A_j >= 0
        let cb: Vec<N> = cols.iter().map(|&j| self.c[j].clone()).collect();
        let mut y = vec![];
        for t in 0..self.bs.rows.len() {
            let col: Vec<Q> = inv.iter().map(|r| r[t]).collect();
            y.push(dot_q(&col, &cb));
        }
        let mut v = vec![];
        for j in 0..self.bs.n {
            if cols.contains(&j) {
                continue;
            }
            let col: Vec<Q> = self.bs.rows.iter().map(|&i| self.bs.a[i][j]).collect();
            v.push(ge0(&(self.c[j].clone() - dot_q(&col, &y))));
        }
        Fm::And(v)
    }
    /// Some dual feasible basis has `x` as its basic solution (for a feasible basic solution `x`, this
    /// is equivalent to optimality).
    fn optimal_vertex(&self, x: &[N]) -> F {
        let mut v = vec![];
        for (cols, inv) in &self.bs.bases {
            let xb = self.basic(inv);
            let mut w = vec![];
            let mut differs = false;
            for j in 0..self.bs.n {
                let d = match cols.iter().position(|&cj| cj == j) {
                    Some(t) => x[j].clone() - &xb[t],
                    None => x[j].clone(),
                };
                if definitely_nonzero(&d) {
                    differs = true;
                    break;
                }
                w.push(is0(&d));
            }
            if differs {
                continue;
            }
            w.push(self.dual_feasible(cols, inv));
            v.push(Fm::And(w));
        }
        Fm::Or(v)
    }
    /// Exact: no feasible basic solution is cheaper and no ray improves.
    fn optimal_exact(&self, x: &[N]) -> F {
        let z = dot(&self.c, x);
        let mut v = vec![self.improving_ray().not()];
        for (cols, inv) in &self.bs.bases {
            let xb = self.basic(inv);
            let cb: Vec<N> = cols.iter().map(|&j| self.c[j].clone()).collect();
            v.push(self.feasible_basis(inv).implies(le(&z, &dot(&cb, &xb))));
        }
        Fm::And(v)
    }
    /// `z` is the optimal cost (some dual feasible basis is feasible and attains it).
    fn optimal_value(&self, z: &N) -> F {
        let mut v = vec![];
        for (cols, inv) in &self.bs.bases {
            let xb = self.basic(inv);
            let cb: Vec<N> = cols.iter().map(|&j| self.c[j].clone()).collect();
            v.push(Fm::And(vec![
                eq(z, &dot(&cb, &xb)),
                self.feasible_basis(inv),
                self.dual_feasible(cols, inv),
            ]));
        }
        Fm::And(vec![self.consistent(), Fm::Or(v)])
    }
}
